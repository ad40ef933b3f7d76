From fb835c574873584595a21494dececa1e82cc6d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 01/26] fix: do not crash on text starting with a dot

---
 markflow/_utils/textwrap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index c4f15e9..0b5b55a 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -89,7 +89,7 @@ def code_split(
     else:
         remaining_text = text[last_end:]
         if (
-            remaining_text
+            split_text
             and remaining_text.startswith(".")
             and not remaining_text.startswith("..")
         ):
@@ -176,7 +176,7 @@ def link_split(
 
     remaining_text = text[last_end:]
     if (
-        remaining_text
+        split_text
         and remaining_text.startswith(".")
         and not remaining_text.startswith("..")
     ):
-- 
2.43.0


From f0f1004536bfacbfc9c7e623e4b8be8c9476f100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 02/26] fix: do not duplicate or drop text of overlapping or
 malformed links

---
 markflow/_utils/textwrap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 0b5b55a..3d29a6c 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -137,6 +137,10 @@ def link_split(
     # Each iteration of this for loop operates on non-link text followed by
     # link text.
     for match in matches:
+        if match.start() < last_end:
+            # Footnotes and links can overlap (e.g. `[a][b](c)`), but their text should
+            # only be output once.
+            continue
         non_link_text = text[last_end : match.start()]
         if non_link_text.strip():
             if (
@@ -162,7 +166,7 @@ def link_split(
 
         leading_spaces.append(False)
         if "](" in match.group():
-            split_link = match.group().split("](")
+            split_link = match.group().split("](", maxsplit=1)
             split_text.append(split_link[0].strip() + "](")
             split_text.append(split_link[1].strip())
         else:
-- 
2.43.0


From 53d746e5949655dccf3dba9902278fc742285e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 03/26] fix: do not treat runs of non-space whitespace as words
 when wrapping

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 3d29a6c..0f50304 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -240,7 +240,7 @@ def space_split(
     leading_spaces: List[bool] = []
     evaluates: List[bool] = []
     for word in text.split(" "):
-        if not word:
+        if not word.strip():
             continue
         split_text.append(word.strip())
         if not leading_spaces:
-- 
2.43.0


From e12e5f0d814fc12bb7269e46edbd2226bc76aa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:59 +0000
Subject: [PATCH 04/26] fix: do not crash on a hard line break at the end of a
 document

---
 markflow/detectors/paragraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/paragraph.py b/markflow/detectors/paragraph.py
index 4abf9f9..c04705f 100644
--- a/markflow/detectors/paragraph.py
+++ b/markflow/detectors/paragraph.py
@@ -106,7 +106,7 @@ def split_paragraph_ignoring_setext(
                 # ToDo: This should be handled in `wrap` as a double space is always a
                 #  newline in any section type.
                 if tail[0].endswith("  "):
-                    remaining_lines = next(tail_lines_generator)
+                    remaining_lines = tail[1:]
                     break
             else:
                 remaining_lines = tail
-- 
2.43.0


From 89f0df8691213526c9233ddfaa5914f25fdd841e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:01 +0000
Subject: [PATCH 05/26] fix: detect link reference definitions that end the
 document

---
 markflow/detectors/link_reference_definition.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 3bb2ec0..06131cc 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -89,6 +89,7 @@ def split_link_reference_definition(
             title_text = line
         except StopIteration:
             title_text = ""
+            index += 1
         is_complete = True
     else:
         # Just the label was on the first line
@@ -110,9 +111,13 @@ def split_link_reference_definition(
             return link_reference_definition, remaining_lines
         elif len(line.split(maxsplit=1)) == 1:
             # Only the URL is on the second line
-            index, line = next(indexed_line_generator)
+            try:
+                index, line = next(indexed_line_generator)
+                title_text = line
+            except StopIteration:
+                title_text = ""
+                index += 1
             is_complete = True
-            title_text = line
         else:
             # The URL and possible title (or part of it) are on the second line
             title_text = line.split(maxsplit=1)[1]
-- 
2.43.0


From 194001c8ceb86a1d7b756e6dbdf274f49e14f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:03 +0000
Subject: [PATCH 06/26] fix: do not swallow the document after an unclosed link
 title

---
 markflow/detectors/link_reference_definition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/link_reference_definition.py b/markflow/detectors/link_reference_definition.py
index 06131cc..e1b6c08 100644
--- a/markflow/detectors/link_reference_definition.py
+++ b/markflow/detectors/link_reference_definition.py
@@ -129,14 +129,14 @@ def split_link_reference_definition(
 
     if quotation_character in QUOTATION_CHARACTERS:
         closing_regex = re.compile(r"(?<!\\)(\\\\)*{}".format(quotation_character))
-        for index, line in itertools.chain(
+        for title_index, line in itertools.chain(
             [(index, title_text[1:])], indexed_line_generator
         ):
             match = closing_regex.search(line.rstrip())
             if match:
                 if match.end() == len(line.rstrip()):
                     is_complete = True
-                    index += 1
+                    index = title_index + 1
                 break
 
     if is_complete:
-- 
2.43.0


From 09aa37f74664394430b1d051f4ffd4089c7eee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 07/26] fix: keep the label and link of a definition whose
 title does not fit

---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index c3248b2..2281005 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -105,7 +105,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
                 lines = str_.splitlines()
                 str_ = "\n".join(lines[:-1] + [wrap(lines[-1] + " " + title, width)])
             else:
-                str_ = "\n" + wrap(title, width)
+                str_ += "\n" + wrap(title, width)
         else:
             str_ += "\n" + wrap(title, width)
 
-- 
2.43.0


From e630aef8daeeb2059372108e66d3bb6b0488900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 08/26] fix: do not mistake a label for the link of a
 definition

---
 markflow/formatters/link_reference_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/link_reference_definition.py b/markflow/formatters/link_reference_definition.py
index 2281005..2e4eb57 100644
--- a/markflow/formatters/link_reference_definition.py
+++ b/markflow/formatters/link_reference_definition.py
@@ -87,7 +87,7 @@ class MarkdownLinkReferenceDefinition(MarkdownSection):
         if not self.link:
             return str_
 
-        if self.link in self.lines[last_index]:
+        if self.link in self.lines[last_index].split("]:", maxsplit=1)[1]:
             str_ += f" {self.link}"
         else:
             last_index = 1
-- 
2.43.0


From 05a9454ff6843cee5c540803a8b83f36f0578de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:16 +0000
Subject: [PATCH 09/26] fix: do not drop the last line of unclosed fenced code
 blocks

---
 markflow/formatters/fenced_code_block.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/fenced_code_block.py b/markflow/formatters/fenced_code_block.py
index a975e48..bc7c60a 100644
--- a/markflow/formatters/fenced_code_block.py
+++ b/markflow/formatters/fenced_code_block.py
@@ -56,7 +56,7 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     @property
     def first_line(self) -> Optional[str]:
-        if len(self.lines) == 2:
+        if len(self.lines) <= 2:
             return None
         else:
             return self.lines[1].strip()
@@ -70,7 +70,10 @@ class MarkdownFencedCodeBlock(MarkdownSection):
 
     def reformatted(self, width: Number = 88) -> str:
         fence = self.fence_char * self.fence_count
-        new_lines = [fence + self.language] + self.lines[1:-1] + [fence]
+        content = self.lines[1:]
+        if content and content[-1].strip() == fence:
+            content = content[:-1]
+        new_lines = [fence + self.language] + content + [fence]
         return "\n".join([line.rstrip() for line in new_lines])
 
     def __repr__(self) -> str:
-- 
2.43.0


From 750b483d02572686bbf09a0aa1bbfed9b1ff79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 10/26] fix: keep thematic breaks at least three characters
 long

---
 markflow/formatters/thematic_break.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/thematic_break.py b/markflow/formatters/thematic_break.py
index 763f373..1774b04 100644
--- a/markflow/formatters/thematic_break.py
+++ b/markflow/formatters/thematic_break.py
@@ -43,7 +43,7 @@ class MarkdownThematicBreak(MarkdownSection):
                     f"Invalid width {repr(width)} passed. How did you manage this?"
                 )
         else:
-            return self.char * width
+            return self.char * max(3, width)
 
     def __repr__(self) -> str:
         return f"<{self.__class__.__name__}: char={repr(self.char)}>"
-- 
2.43.0


From 67f29ba70acc066a50328a6a05960ee7fc06ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 11/26] fix: do not recurse endlessly on quote markers indented
 by a tab

---
 markflow/detectors/block_quote.py  | 2 +-
 markflow/formatters/block_quote.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/block_quote.py b/markflow/detectors/block_quote.py
index c624cbc..8768e52 100644
--- a/markflow/detectors/block_quote.py
+++ b/markflow/detectors/block_quote.py
@@ -15,7 +15,7 @@ from .ordered_list import split_ordered_list
 from .table import split_table
 from .thematic_break import split_thematic_break
 
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 
 def _is_paragraph_continuation_text(lines: List[str], line_offset: int = 0) -> bool:
diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index f3cc4ff..2d16838 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -11,7 +11,7 @@ __all__ = ["MarkdownBlockQuote"]
 
 REPR_CONTENT_LEN = 20
 NON_ESCAPED_QUOTE_MARKER = re.compile(r"(?<= )>")
-LEADING_QUOTE_MARKER = re.compile(r"^ {0,3}>")
+LEADING_QUOTE_MARKER = re.compile(r"^\s{0,3}>")
 
 logger = logging.getLogger(__name__)
 
-- 
2.43.0


From 7c665d920a23eeb88eb0ef99e54984ce9baf8dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 12/26] fix: do not let the indent of a block quote widen its
 lines

---
 markflow/formatters/block_quote.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/markflow/formatters/block_quote.py b/markflow/formatters/block_quote.py
index 2d16838..75fc340 100644
--- a/markflow/formatters/block_quote.py
+++ b/markflow/formatters/block_quote.py
@@ -36,8 +36,6 @@ class MarkdownBlockQuote(MarkdownSection):
         self.lines.append(line)
 
     def reformatted(self, width: Number = 88) -> str:
-        indent = len(self.lines[0].lstrip()) - len(self.lines[0])
-
         depth = 0
         fully_quoted_lines = []
         for line in self.lines:
@@ -70,8 +68,8 @@ class MarkdownBlockQuote(MarkdownSection):
                 restripped_lines += [line[1:] if line and line[0] == " " else line]
             stripped_lines = restripped_lines
 
-        sub_width = width - indent - 1
-        prefix = " " * indent + ">"
+        sub_width = width - 1
+        prefix = ">"
         if has_space:
             sub_width -= 1
             prefix += " "
-- 
2.43.0


From e5ccd21fa71cf2c5bc4848f93fed61bd3ddfb9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:24 +0000
Subject: [PATCH 13/26] fix: do not leave a trailing space after empty headings

---
 markflow/formatters/atx_heading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/atx_heading.py b/markflow/formatters/atx_heading.py
index 5bce961..196d07f 100644
--- a/markflow/formatters/atx_heading.py
+++ b/markflow/formatters/atx_heading.py
@@ -64,7 +64,7 @@ class MarkdownATXHeading(MarkdownSection):
                 "corrected.",
                 self.line_index + 1,
             )
-        return "#" * self.depth + " " + self.content
+        return ("#" * self.depth + " " + self.content).rstrip()
 
     def __repr__(self) -> str:
         return (
-- 
2.43.0


From 0248d994f0832144798acf1b7dbe04d5419b3bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 14/26] fix: tell apart the fences of indented code blocks in
 lists

---
 markflow/formatters/lists.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/formatters/lists.py b/markflow/formatters/lists.py
index edfb4c4..4fc16bf 100644
--- a/markflow/formatters/lists.py
+++ b/markflow/formatters/lists.py
@@ -67,7 +67,7 @@ def _split_list(lines: List[str]) -> List[List[str]]:
         if any(line.lstrip().startswith(f * 3) for f in CODE_BLOCK_FENCES):
             code_block_symbol = line.lstrip()[0]
             code_block_marker_length = len(line.lstrip()) - len(
-                line.lstrip(code_block_symbol)
+                line.lstrip().lstrip(code_block_symbol)
             )
             code_block_marker = code_block_marker_length * code_block_symbol
             if in_code_block:
-- 
2.43.0


From 252b8c8d26114fb27950caff10155427a7b7679b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 15/26] fix: let thematic breaks take precedence over bullet
 lists

---
 markflow/detectors/_lines.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index f9bbae0..ac72db8 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -158,8 +158,10 @@ def is_bullet_list_start_line(line: str) -> bool:
     Returns:
         True if the line is could start a bullet list. False otherwise.
     """
-    return not is_indented_code_block_start_line(line) and bool(
-        BULLET_LIST_START_REGEX.search(line)
+    return (
+        not is_indented_code_block_start_line(line)
+        and not is_thematic_break_line(line)
+        and bool(BULLET_LIST_START_REGEX.search(line))
     )
 
 
-- 
2.43.0


From 8b497767a8aab2312a41bd221601cd9a6c3605e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 16/26] fix: do not crash on list numbers too long to be
 converted

---
 markflow/detectors/_lines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/_lines.py b/markflow/detectors/_lines.py
index ac72db8..f5ef448 100644
--- a/markflow/detectors/_lines.py
+++ b/markflow/detectors/_lines.py
@@ -21,7 +21,7 @@ BULLET_LIST_START_REGEX = re.compile(
 ORDERED_LIST_START_REGEX = re.compile(
     r"^\s*"  # Leading spaces are OK and often expected
     r"("
-    r"[0-9]+\."  # Numeric list marker
+    r"[0-9]{1,9}\."  # Numeric list marker, at most nine digits per the standard
     r") "  # Lists need a space after their identifier
 )
 THEMATIC_BREAK_CHARACTERS = ["*", "_", "-"]
-- 
2.43.0


From d8a67efdda926f634b07694f6ef038ae2d2df0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 17/26] fix: do not drop cells with escaped pipes or without a
 closing pipe

---
 markflow/formatters/table.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 10b859e..50b9420 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -1,6 +1,7 @@
 import enum
 import math
 import re
+from typing import List
 
 from ..exceptions import MarkdownFormatException
 from ..typing import Number
@@ -11,6 +12,14 @@ __all__ = ["MarkdownTable"]
 COLUMN_DIVIDER_REGEX = re.compile(r"(?<!\\)" r"\|")  # Ignore escaped |
 
 
+def split_row(line: str) -> List[str]:
+    """Split a row into its cells; the pipe after the last cell is optional"""
+    cells = COLUMN_DIVIDER_REGEX.split(line)[1:]
+    if not cells[-1].strip():
+        cells = cells[:-1]
+    return cells
+
+
 class Alignment(enum.Enum):
     NONE = "none"
     CENTER = "center"
@@ -45,7 +54,7 @@ class MarkdownTable(MarkdownSection):
             if i == 1:
                 # Skip the divider line
                 continue
-            cols = COLUMN_DIVIDER_REGEX.split(line)[1:-1]
+            cols = split_row(line)
             cols = [col.strip() for col in cols]
             column_widths.append(tuple(len(col) for col in cols))
 
@@ -77,7 +86,7 @@ class MarkdownTable(MarkdownSection):
 
         new_lines = []
         # First line is headers. We'll center them.
-        headers = COLUMN_DIVIDER_REGEX.split(self.lines[0])[1:-1]
+        headers = split_row(self.lines[0])
         header_strings = []
         for header, width, alignment in zip(
             headers, new_column_widths, column_alignments
@@ -111,7 +120,7 @@ class MarkdownTable(MarkdownSection):
         for line in self.lines[2:]:
             columns = []
             for column, width, alignment in zip(
-                line.split("|")[1:-1], new_column_widths, column_alignments
+                split_row(line), new_column_widths, column_alignments
             ):
                 column = column.strip()
                 if alignment == Alignment.CENTER:
-- 
2.43.0


From 045149d852dc6037a3fa060268e8ab752c9b9eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 18/26] fix: refuse tables without a valid divider row instead
 of losing cells

---
 markflow/formatters/table.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/markflow/formatters/table.py b/markflow/formatters/table.py
index 50b9420..28a0ced 100644
--- a/markflow/formatters/table.py
+++ b/markflow/formatters/table.py
@@ -10,6 +10,7 @@ from .base import MarkdownSection
 __all__ = ["MarkdownTable"]
 
 COLUMN_DIVIDER_REGEX = re.compile(r"(?<!\\)" r"\|")  # Ignore escaped |
+HEADING_DIVIDER_REGEX = re.compile(r":?-+:?")
 
 
 def split_row(line: str) -> List[str]:
@@ -58,9 +59,18 @@ class MarkdownTable(MarkdownSection):
             cols = [col.strip() for col in cols]
             column_widths.append(tuple(len(col) for col in cols))
 
+        if len(self.lines) < 2:
+            raise MarkdownFormatException(
+                f"Table on line {self.line_index + 1} does not have a divider row"
+            )
+
         column_alignments = []
-        for divider in self.lines[1].strip()[1:-1].split("|"):
+        for divider in split_row(self.lines[1]):
             divider = divider.strip()
+            if not HEADING_DIVIDER_REGEX.fullmatch(divider):
+                raise MarkdownFormatException(
+                    f"Line {self.line_index + 2} is not a valid table divider row"
+                )
             if divider.startswith(":") and divider.endswith(":"):
                 column_alignments.append(Alignment.CENTER)
             elif divider.startswith(":"):
@@ -71,6 +81,11 @@ class MarkdownTable(MarkdownSection):
                 column_alignments.append(Alignment.NONE)
 
         header_column_count = len(column_widths[0])
+        if len(column_alignments) != header_column_count:
+            raise MarkdownFormatException(
+                f"Line {self.line_index + 2} has unexpected number of columns "
+                f"(expected: {header_column_count}, actual: {len(column_alignments)})"
+            )
         for i, column_width in enumerate(column_widths[1:], start=2):
             if len(column_width) != header_column_count:
                 raise MarkdownFormatException(
@@ -78,7 +93,8 @@ class MarkdownTable(MarkdownSection):
                     f"(expected: {header_column_count}, actual: {len(column_width)})"
                 )
 
-        new_column_widths = [0 for _ in column_widths[0]]
+        # The divider needs at least one dash even if the whole column is empty.
+        new_column_widths = [1 for _ in column_widths[0]]
         for widths in column_widths:
             for i, width in enumerate(widths):
                 if width > new_column_widths[i]:
-- 
2.43.0


From 6177fc940567e54c7ce286de2041af4a5cafc2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 19/26] fix: check the consistency of the text that is actually
 returned

---
 markflow/reformat_markdown.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 61582d8..20ce3ac 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -86,17 +86,16 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
     Returns:
         The reformatted Markdown text
     """
-    new_text = _reformat_markdown_text(text, width)
+    new_text = _reformat_markdown_text(text, width).rstrip() + "\n"
     level = logger.getEffectiveLevel()
     # Mute logging during second pass since it means nothing to the user.
     if level > logging.DEBUG:
         logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width)
+    new_new_text = _reformat_markdown_text(new_text, width).rstrip() + "\n"
     logger.setLevel(level)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
             "report or email jholland@duosecurity.com."
         )
-    new_text = new_text.rstrip() + "\n"
     return new_text
-- 
2.43.0


From 797000f4fa7aec9ddbdf2bc991853974b75f695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 20/26] fix: restore logging levels after reformatting, even if
 it raises

---
 markflow/_utils/_utils.py     |  6 ++++--
 markflow/reformat_markdown.py | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/markflow/_utils/_utils.py b/markflow/_utils/_utils.py
index 1a9ebd4..4aec769 100644
--- a/markflow/_utils/_utils.py
+++ b/markflow/_utils/_utils.py
@@ -30,5 +30,7 @@ def truncate_str(str_: str, length: int) -> str:
 def redirect_info_logs_to_debug() -> Iterator[None]:
     old_info = logging.INFO
     logging.INFO = logging.DEBUG
-    yield
-    logging.INFO = old_info
+    try:
+        yield
+    finally:
+        logging.INFO = old_info
diff --git a/markflow/reformat_markdown.py b/markflow/reformat_markdown.py
index 20ce3ac..af07597 100644
--- a/markflow/reformat_markdown.py
+++ b/markflow/reformat_markdown.py
@@ -87,12 +87,14 @@ def reformat_markdown_text(text: str, width: Number = 88) -> str:
         The reformatted Markdown text
     """
     new_text = _reformat_markdown_text(text, width).rstrip() + "\n"
-    level = logger.getEffectiveLevel()
+    level = logger.level
     # Mute logging during second pass since it means nothing to the user.
-    if level > logging.DEBUG:
+    if logger.getEffectiveLevel() > logging.DEBUG:
         logger.setLevel(logging.ERROR)
-    new_new_text = _reformat_markdown_text(new_text, width).rstrip() + "\n"
-    logger.setLevel(level)
+    try:
+        new_new_text = _reformat_markdown_text(new_text, width).rstrip() + "\n"
+    finally:
+        logger.setLevel(level)
     if new_new_text != new_text:
         raise ReformatInconsistentException(
             "Reformat of reformatted code results in different text. Please open a bug "
-- 
2.43.0


From 37568d3d1de82ac9585703fad28e02477e522174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 21/26] fix: do not write output files in check mode

---
 markflow/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index 39f0c6b..cf724ec 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -300,7 +300,7 @@ def _reformat_files(args: argparse.Namespace) -> int:
             else:
                 print_markdown(f"would reformat {input_path}")
         else:
-            if output_path != input_path:
+            if not args.check and output_path != input_path:
                 output_path.write_text(new_contents)
             files_left_unchanged += 1
 
-- 
2.43.0


From 7ec1bdb461ac36340c4f27d39a062d1724670b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 22/26] fix: rewrite files whose only problem is their newlines

---
 markflow/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/markflow/__main__.py b/markflow/__main__.py
index cf724ec..c377cbc 100644
--- a/markflow/__main__.py
+++ b/markflow/__main__.py
@@ -277,7 +277,9 @@ def _reformat_files(args: argparse.Namespace) -> int:
     files_left_unchanged = 0
     files_changed = 0
     for input_path, output_path in zip(args.paths, output_paths):
-        old_contents = input_path.read_text()
+        # Don't translate newlines so that we can tell if they need to be fixed.
+        with input_path.open(newline="") as input_file:
+            old_contents = input_file.read()
         try:
             new_contents = reformat_markdown_text(old_contents, args.line_length)
         except RuntimeError as runtime_error:
-- 
2.43.0


From ae99c835f39fc0e35f65d71148a2577c55f60f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 23/26] fix: check that input paths are readable before
 formatting any of them

---
 markflow/_argparse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/markflow/_argparse.py b/markflow/_argparse.py
index adfe12c..0adbefa 100644
--- a/markflow/_argparse.py
+++ b/markflow/_argparse.py
@@ -27,6 +27,12 @@ class ExistingPath:
             raise argparse.ArgumentTypeError(
                 f"specified path does not exist: {repr(str(path))}"
             )
+
+        for permission in self._permissions:
+            if not os.access(path, permission.os_constant):
+                raise argparse.ArgumentTypeError(
+                    f"cannot {permission.verbiage} path: {repr(str(path))}"
+                )
         return path
 
 
-- 
2.43.0


From 806e74183bd96f3e0063acf46f721a690c6f3750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 24/26] fix: keep the last line of an indented code block in
 the block

---
 markflow/detectors/indented_code_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/detectors/indented_code_block.py b/markflow/detectors/indented_code_block.py
index b9322cd..a92d236 100644
--- a/markflow/detectors/indented_code_block.py
+++ b/markflow/detectors/indented_code_block.py
@@ -44,7 +44,7 @@ def split_indented_code_block(
             if not line.strip():
                 continue
             elif get_indent(line) >= 4:
-                close_index = index
+                close_index = index + 1
             else:
                 break
 
-- 
2.43.0


From 4835f3443d3a9d61f4b41914d73eea6e410b1514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:31 +0000
Subject: [PATCH 25/26] fix: wrap text after backticks that do not open inline
 code

---
 markflow/_utils/textwrap.py | 47 +++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 0f50304..529621c 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -43,8 +43,16 @@ def code_split(
     last_end = 0
     # We jump from tilda mark to tilda mark. The length of the tildas indicate if we are
     # beginning, ending, or still in code.
-    for code_marker in INLINE_CODE_MARKER_REGEX.finditer(text):
+    code_markers = list(INLINE_CODE_MARKER_REGEX.finditer(text))
+    for index, code_marker in enumerate(code_markers):
         if open_marker_len == 0:
+            if not any(
+                len(later_marker.group()) == len(code_marker.group())
+                for later_marker in code_markers[index + 1 :]
+            ):
+                # This is never closed, so it isn't inline code, just plain text.
+                continue
+
             plaintext = text[last_end : code_marker.start()]
             if (
                 plaintext.startswith(".")
@@ -80,28 +88,21 @@ def code_split(
 
         last_end = code_marker.end()
 
-    # If our last field only has a singular inline code marker, it means that it isn't
-    # inline text and just a standalone tilda or set of tildas, so we can evaluate it.
-    if split_text and len(INLINE_CODE_MARKER_REGEX.findall(split_text[-1])) == 1:
-        evaluates[-1] = True
-        if text[last_end:].strip():
-            split_text[-1] += text[last_end:].rstrip()
-    else:
-        remaining_text = text[last_end:]
-        if (
-            split_text
-            and remaining_text.startswith(".")
-            and not remaining_text.startswith("..")
-        ):
-            split_text[-1] += "."
-            remaining_text = remaining_text[1:]
-        if remaining_text.strip():
-            split_text.append(remaining_text.strip())
-            if last_end == 0:
-                leading_spaces.append(leading_space)
-            else:
-                leading_spaces.append(remaining_text.startswith(" "))
-            evaluates.append(True)
+    remaining_text = text[last_end:]
+    if (
+        split_text
+        and remaining_text.startswith(".")
+        and not remaining_text.startswith("..")
+    ):
+        split_text[-1] += "."
+        remaining_text = remaining_text[1:]
+    if remaining_text.strip():
+        split_text.append(remaining_text.strip())
+        if last_end == 0:
+            leading_spaces.append(leading_space)
+        else:
+            leading_spaces.append(remaining_text.startswith(" "))
+        evaluates.append(True)
 
     return split_text, leading_spaces, evaluates
 
-- 
2.43.0


From 3bcfb073c5b0dd6f3b4ac63f218f091ab3c51c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:33 +0000
Subject: [PATCH 26/26] fix: do not mistake a link target starting with a line
 break tag for one

---
 markflow/_utils/textwrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/markflow/_utils/textwrap.py b/markflow/_utils/textwrap.py
index 529621c..2ecbf44 100644
--- a/markflow/_utils/textwrap.py
+++ b/markflow/_utils/textwrap.py
@@ -22,7 +22,7 @@ def join(split_text: List[str], leading_spaces: List[bool], width: Number) -> st
             new_split_text.append(word)
 
         # If we hit an HTML new line, the next text should begin on a new line.
-        if HTML_NEWLINE_REGEX.match(word):
+        if HTML_NEWLINE_REGEX.fullmatch(word):
             new_split_text.append("")
 
     if not new_split_text[-1]:
-- 
2.43.0

