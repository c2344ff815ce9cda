From 461391b38f4ae8323da824fe2f64415062bb0f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:37 +0000
Subject: [PATCH 01/18] fix: never treat the last line of an unclosed code
 fence as a header

---
 md_toc/api.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a4f13ad..ba662b0 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -321,6 +321,11 @@ def build_toc(
             f.seek(file_pointer_pos)
 
         # Code fence detection.
+        #
+        # The content of a code block, as well as its opening and closing
+        # lines, can never be a header. This includes the last line of the
+        # document when the code fence is not closed.
+        is_code_block_line = is_within_code_fence
         if is_within_code_fence:
             is_within_code_fence = not is_closing_code_fence(
                 line,
@@ -333,8 +338,9 @@ def build_toc(
             if code_fence is not None:
                 # Update the status of the next line.
                 is_within_code_fence = True
+                is_code_block_line = True
 
-        if not is_within_code_fence or code_fence is None:
+        if not is_code_block_line:
 
             # Header detection and gathering.
             headers: list[types.Header] = get_md_header(
-- 
2.43.0


From e36cf1ecc936f325fadc7f331011e420c4744c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:38 +0000
Subject: [PATCH 02/18] fix: keep the hashes before the closing sequence when a
 header has only hashes

---
 md_toc/api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index ba662b0..e266ce7 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1259,6 +1259,11 @@ def get_atx_heading(
                     if i > hash_round_start:
                         hash_char_rounds += 1
 
+            # The text is made of spaces and hashes only: just the last
+            # sequence of hashes is the closing sequence.
+            if go and hash_char_rounds > 1:
+                cs_end = len_subl - hash_round_start
+
             final_line = subl[cs_start:cs_end]
 
             # Add escaping.
-- 
2.43.0


From c6ac1fd5cf442f16e642ccc9f51817fbf81c8f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:39 +0000
Subject: [PATCH 03/18] fix: header visibility must not leak to the following
 lines

---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index e266ce7..ea0c243 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1129,7 +1129,7 @@ def get_atx_heading(
         raise ValueError
 
     struct: list[types.AtxHeadingStructElement] = list()
-    line_visible: bool = True
+    line_visible: bool
 
     if len(line) == 0:
         return [{
@@ -1141,6 +1141,8 @@ def get_atx_heading(
     for subl in replace_and_split_newlines(line):
         current_headers = None
         final_line = None
+        # The visibility of a line does not depend on the previous ones.
+        line_visible = True
 
         if parser in ['github', 'cmark', 'gitlab', 'commonmarker', 'goldmark']:
 
-- 
2.43.0


From f0a414003eeb718789f26f833c9a9caf41745587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:40 +0000
Subject: [PATCH 04/18] fix: keep_header_levels was ignored by the redcarpet
 parser

---
 md_toc/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/md_toc/api.py b/md_toc/api.py
index ea0c243..8e2c62c 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1329,6 +1329,9 @@ def get_atx_heading(
             if i < len(subl) and subl[i] != ' ':
                 continue
 
+            if current_headers > keep_header_levels:
+                line_visible = False
+
             while i < len(subl) and subl[i] == ' ':
                 i += 1
 
-- 
2.43.0


From 0a3c185560fed34afff4734f4f4adf8bd5dcab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:03 +0000
Subject: [PATCH 05/18] fix: detect link labels made only of mixed whitespace

---
 md_toc/api.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index 8e2c62c..f64a170 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1273,9 +1273,8 @@ def get_atx_heading(
                 if len(final_line) > 0 and final_line[-1] == '\u005c':
                     final_line = ''.join([final_line, ' '])
                 if len(
-                        final_line.strip('\u0020').strip('\u0009').strip(
-                            '\u000a').strip('\u000b').strip('\u000c').strip(
-                                '\u000d'), ) == 0:
+                        final_line.strip(
+                            '\u0020\u0009\u000a\u000b\u000c\u000d'), ) == 0:
                     raise GithubEmptyLinkLabel
                 if len(final_line,
                        ) > md_parser['github']['link']['max_chars_label']:
-- 
2.43.0


From 2576fab5d1c5a63664eb58075d1d77a68a561a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:04 +0000
Subject: [PATCH 06/18] fix: skip HTML tags and entities in redcarpet anchors

---
 md_toc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index f64a170..a9d94e3 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -1026,7 +1026,8 @@ def build_anchor_link(
         inserted = 0
         stripped = 0
         header_text_trimmed_middle_stage = list()
-        for i in range(0, header_text_trimmed_len):
+        i = 0
+        while i < header_text_trimmed_len:
             if header_text_trimmed[i] == '<':
                 while i < header_text_trimmed_len and header_text_trimmed[
                         i] != '>':
@@ -1047,6 +1048,7 @@ def build_anchor_link(
                     header_text_trimmed[i].lower(), )
                 stripped = 0
                 inserted += 1
+            i += 1
 
         header_text_trimmed_middle_stage_str: str = ''.join(
             header_text_trimmed_middle_stage)
-- 
2.43.0


From 78f9ee74e1dae9576d28c8c810a8dd5690e617a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:38 +0000
Subject: [PATCH 07/18] fix: remove the right characters of delimiter runs used
 both as closer and opener

---
 md_toc/cmark/inlines_c.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index d61b571..b0cecfa 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -136,6 +136,7 @@ class _cmarkDelimiter:
         'can_open',
         'can_close',
         'offset',
+        'opener_offset',
     ]
 
     def __init__(self):
@@ -147,8 +148,11 @@ class _cmarkDelimiter:
         self.can_open: bool = False
         self.can_close: bool = False
 
-        # Extra attribute.
+        # Extra attributes.
+        # A delimiter run can be used both as a closer, from its start, and
+        # as an opener, from its end.
         self.offset: int = 0
+        self.opener_offset: int = 0
 
 
 class _cmarkBracket:
@@ -1018,15 +1022,15 @@ def _cmark_remove_emph(subj: _cmarkSubject, opener: _cmarkDelimiter,
     #############
 
     # Custom variables and computations.
-    opener_relative_start = opener_inl.end_column - use_delims - opener.offset
-    opener_relative_end = opener_inl.end_column - opener.offset
+    opener_relative_start = opener_inl.end_column - use_delims - opener.opener_offset
+    opener_relative_end = opener_inl.end_column - opener.opener_offset
     closer_relative_start = closer_inl.start_column + closer.offset - 1
     closer_relative_end = closer_inl.start_column + use_delims + closer.offset - 1
 
     ignore.append(range(opener_relative_start, opener_relative_end))
     ignore.append(range(closer_relative_start, closer_relative_end))
 
-    opener.offset += use_delims
+    opener.opener_offset += use_delims
     closer.offset += use_delims
 
     # if opener has 0 characters, remove it and its associated inline
-- 
2.43.0


From 9b5f9cd42d86c623c4814254455e3f618caf6629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:38 +0000
Subject: [PATCH 08/18] fix: off by one in the bounds check of the special
 characters table

---
 md_toc/cmark/inlines_c.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index b0cecfa..8759ba4 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2049,8 +2049,8 @@ def _cmark_subject_find_special_char(subj: _cmarkSubject, options: int) -> int:
         # Patch to avoid overflow problems.
         # FIXME: this should not be needed!
         # These two are not present in the original C source code.
-        if (ord(subj.input.data[n]) > len(SPECIAL_CHARS)
-                or ord(subj.input.data[n]) > len(SMART_PUNCT_CHARS)):
+        if (ord(subj.input.data[n]) >= len(SPECIAL_CHARS)
+                or ord(subj.input.data[n]) >= len(SMART_PUNCT_CHARS)):
             return n
 
         if SPECIAL_CHARS[ord(subj.input.data[n])] == 1:
-- 
2.43.0


From 7163e7323ef658306d1675188984099b62d01901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:40 +0000
Subject: [PATCH 09/18] fix: link labels following a bracket raised a KeyError

---
 md_toc/cmark/inlines_c.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 8759ba4..adfb797 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1234,7 +1234,7 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
         return 0
 
     c = chr(_cmark_peek_char(subj))
-    while c and c != '[' and c != ']':
+    while not _cmark_is_eof(subj) and c != '[' and c != ']':
         if c == '\\':
             _cmark_advance(subj)
             length += 1
@@ -1246,9 +1246,9 @@ def _cmark_link_label(subj: _cmarkSubject, raw_label: _cmarkCmarkChunk) -> int:
             length += 1
 
         # MAX_LINK_LABEL_LENGTH is defined as 1000 while
-        # parser['cmark']['link']['max chars label'] is defined as 999.
+        # parser['cmark']['link']['max_chars_label'] is defined as 999.
         #     if (length > MAX_LINK_LABEL_LENGTH) {
-        if length > md_parser['cmark']['link']['max chars label'] + 1:
+        if length > md_parser['cmark']['link']['max_chars_label'] + 1:
             no_match = True
 
         c = chr(_cmark_peek_char(subj))
-- 
2.43.0


From b55e5fda96db159d0abf2245922a4d34767f8a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:41 +0000
Subject: [PATCH 10/18] fix: out of bounds access in code spans ending with a
 carriage return

---
 md_toc/cmark/inlines_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index adfb797..1265f3b 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -579,7 +579,7 @@ def _cmark_S_normalize_code(s: _cmarkCmarkStrbuf):
 
     while r < s.size:
         if s.ptr[r] == '\r':
-            if (s.ptr[r + 1] != '\n'):
+            if (r + 1 >= s.size or s.ptr[r + 1] != '\n'):
                 s.ptr = _replace_substring(s.ptr, ' ', w, w)
                 w += 1
         elif s.ptr[r] == '\n':
-- 
2.43.0


From 3a24d15d85f076ed2db9de0ad7abf70b756bcf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:09 +0000
Subject: [PATCH 11/18] fix: out of bounds access in links with an unterminated
 title part

---
 md_toc/cmark/inlines_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 1265f3b..c81577a 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -1406,7 +1406,8 @@ def _cmark_handle_close_bracket(subj: _cmarkSubject,
 
         endall = endtitle + _cmark_scan_spacechars(subj.input, endtitle)
 
-        if chr(_cmark_peek_at(subj, endall)) == ')':
+        if (endall < subj.input.length
+                and chr(_cmark_peek_at(subj, endall)) == ')'):
             subj.pos = endall + 1
 
             title_chunk = _cmark_cmark_chunk_dup(subj.input, starttitle,
-- 
2.43.0


From 903dce03900329055742991a02b43b0a7d78d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:34 +0000
Subject: [PATCH 12/18] fix: in-place writing and comparison with carriage
 return newline strings

---
 md_toc/api.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/md_toc/api.py b/md_toc/api.py
index a9d94e3..556e502 100644
--- a/md_toc/api.py
+++ b/md_toc/api.py
@@ -61,6 +61,8 @@ def tocs_equal(current_toc: str, filename: str, marker: str) -> bool:
     tocs_equal: bool = False
     r: tuple = generic._get_existing_toc(filename, marker)
     old_toc: str = r[0]
+    # Files are read with universal newlines.
+    current_toc = current_toc.replace('\r\n', '\n').replace('\r', '\n')
     if current_toc.strip() == old_toc:
         tocs_equal = True
     return tocs_equal
@@ -92,11 +94,14 @@ def write_string_on_file_between_markers(
     if filename == '-':
         raise StdinIsNotAFileToBeWritten
 
+    # Files are read with universal newlines. Line feeds are translated
+    # into newline_string when the file is written.
+    string = string.replace('\r\n', '\n').replace('\r', '\n')
+
     # TOC that is written to the file.
-    final_toc_string: str = ''.join([
-        marker, newline_string, newline_string,
-        string.rstrip(), newline_string, newline_string, marker, newline_string
-    ])
+    final_toc_string: str = ''.join(
+        [marker, '\n\n',
+         string.rstrip(), '\n\n', marker, '\n'])
 
     (
         old_toc,
-- 
2.43.0


From 0bb45d56a2043cb955dfaf08e2556609e61d015a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:00 +0000
Subject: [PATCH 13/18] fix: look at the right character before an emphasis
 delimiter

---
 md_toc/cmark/inlines_c.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index c81577a..dddfb08 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -645,11 +645,9 @@ def _cmark_scan_delims(subj: _cmarkSubject, c: str) -> tuple:
     if subj.pos == 0:
         before_char = 10
     else:
+        # A Python string is a sequence of code points: unlike cmark there is
+        # no need to walk back to the beginning of the UTF-8 sequence.
         before_char_pos = subj.pos - 1
-        # walk back to the beginning of the UTF_8 sequence
-        while _cmark_peek_at(
-                subj, before_char_pos) >> 6 == 2 and before_char_pos > 0:
-            before_char_pos -= 1
 
         length, before_char = _cmark_cmark_utf8proc_iterate(
             subj.input.data[before_char_pos:],
-- 
2.43.0


From 8c384f13d0255b8dfc5585963609464a327fe22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:01 +0000
Subject: [PATCH 14/18] fix: lower bound of the search for underscore openers

---
 md_toc/cmark/inlines_c.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index dddfb08..580de4f 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -878,6 +878,11 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
         stack_bottom,
         stack_bottom,
         stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
+        stack_bottom,
     ]
 
     # move back to first relevant delim.
@@ -892,9 +897,14 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
             elif closer.delim_char == '\'':
                 openers_bottom_index = 1
             elif closer.delim_char == '_':
+                # As in cmark 0.31: different lower bounds are needed because
+                # of the rule about the lengths being multiple of three.
                 openers_bottom_index = 2
+                if closer.can_open:
+                    openers_bottom_index += 3
+                openers_bottom_index += closer.length % 3
             elif closer.delim_char == '*':
-                openers_bottom_index = 3
+                openers_bottom_index = 8
                 if closer.can_open:
                     openers_bottom_index += 3
                 else:
-- 
2.43.0


From c80c15c652e007a47dc9fd079ff9c27bf66f0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:16 +0000
Subject: [PATCH 15/18] fix: recognise images when removing emphasis

---
 md_toc/cmark/inlines_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 580de4f..268d43a 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -2115,7 +2115,7 @@ def _cmark_parse_inline(subj: _cmarkSubject,
         _cmark_handle_close_bracket(subj, ignore)
     elif chr(c) in ['!']:
         _cmark_advance(subj)
-        if _cmark_peek_char(subj) == '[':
+        if chr(_cmark_peek_char(subj)) == '[':
             _cmark_advance(subj)
             new_inl = _cmark_make_str(subj, subj.pos - 2, subj.pos - 1,
                                       _cmark_cmark_chunk_literal('!['))
-- 
2.43.0


From 2c7bd9af64fa1acb329704e14ba0289bad8a6a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:00 +0000
Subject: [PATCH 16/18] fix: URI autolinks start with a scheme

---
 md_toc/cmark/scanners_c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index b40d7c9..9fef527 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -113,7 +113,8 @@ def _cmark__scan_spacechars(ptr: str, p: int) -> int:
 
 # Try to match URI autolink after first <, returning number of chars matched.
 def _cmark__scan_autolink_uri(ptr: str, p: int) -> int:
-    return _common_scan('[:][^\x00-\x20<>]*[>]', ptr, p)
+    return _common_scan(
+        '[A-Za-z][A-Za-z0-9.+-]{1,31}[:][^\x00-\x20<>]*[>]', ptr, p)
 
 
 # Try to match email autolink after first <, returning num of chars matched.
-- 
2.43.0


From e5cc9379c3fef6d3cd392007d93808043f46a247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:01 +0000
Subject: [PATCH 17/18] fix: link titles in parentheses

---
 md_toc/cmark/scanners_c.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/md_toc/cmark/scanners_c.py b/md_toc/cmark/scanners_c.py
index 9fef527..aff6921 100644
--- a/md_toc/cmark/scanners_c.py
+++ b/md_toc/cmark/scanners_c.py
@@ -100,7 +100,7 @@ def _cmark__scan_link_title(ptr: str, p: int) -> int:
     r2 = "['](" + md_parser['cmark']['_scanners.re'][
         'escaped_char'] + "|[^'\u0000])*[']"
     r3 = r'[\(](' + md_parser['cmark']['_scanners.re'][
-        'escaped_char'] + r"|[^\(\)\u0000])*[']"
+        'escaped_char'] + r'|[^\(\)\u0000])*[\)]'
     r = '(' + r1 + '|' + r2 + '|' + r3 + ')'
     return _common_scan(r, ptr, p)
 
-- 
2.43.0


From 1bf5749e09ca3bdcdf8965a7dab8b76b6704d4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:53 +0000
Subject: [PATCH 18/18] fix: emphasis delimiters inside and outside of a link
 were paired

The lower bounds of the search for openers were delimiters that might have
been removed from the list in the meantime: the search went past them and
past the bottom of the stack.
---
 md_toc/cmark/inlines_c.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/md_toc/cmark/inlines_c.py b/md_toc/cmark/inlines_c.py
index 268d43a..3f47511 100644
--- a/md_toc/cmark/inlines_c.py
+++ b/md_toc/cmark/inlines_c.py
@@ -868,22 +868,9 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
     old_closer: _cmarkDelimiter
     opener_found: bool
     openers_bottom_index: int = 0
-    openers_bottom: list = [
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-        stack_bottom,
-    ]
+    # Positions as in cmark 0.31: a delimiter used as lower bound might be
+    # removed from the list.
+    openers_bottom: list = [-1] * 14
 
     # move back to first relevant delim.
     while closer is not None and closer.previous is not stack_bottom:
@@ -916,8 +903,9 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
             # Now look backwards for first matching opener:
             opener = closer.previous
             opener_found = False
-            while opener is not None and opener != openers_bottom[
-                    openers_bottom_index]:
+            while (opener is not None and opener is not stack_bottom
+                   and opener.inl_text.start_column
+                   >= openers_bottom[openers_bottom_index]):
                 if opener.can_open and opener.delim_char == closer.delim_char:
                     # interior closer of size 2 can't match opener of size 1
                     # or of size 1 can't match 2
@@ -952,7 +940,8 @@ def _cmark_process_emphasis(subj: _cmarkSubject, stack_bottom: _cmarkDelimiter,
 
             if not opener_found:
                 # set lower bound for future searches for openers
-                openers_bottom[openers_bottom_index] = old_closer.previous
+                openers_bottom[
+                    openers_bottom_index] = old_closer.inl_text.start_column
                 if not old_closer.can_open:
                     # we can remove a closer that can't be an
                     # opener, once we've seen there's no
-- 
2.43.0

