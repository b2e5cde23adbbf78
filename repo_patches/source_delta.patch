From 0aea55ab6b936f244389c56efce553d2010e8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 01/18] fix: LexiconSet.get_word_id ignored every word it found

---
 sudachipy/dictionarylib/lexiconset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/lexiconset.py b/sudachipy/dictionarylib/lexiconset.py
index 6cc3d99..1a8bac4 100644
--- a/sudachipy/dictionarylib/lexiconset.py
+++ b/sudachipy/dictionarylib/lexiconset.py
@@ -80,7 +80,7 @@ class LexiconSet(Lexicon):
     def get_word_id(self, headword: str, pos_id: int, reading_form: str) -> int:
         for dic_id in range(len(self.lexicons)):
             wid = self.lexicons[dic_id].get_word_id(headword, pos_id, reading_form)
-            if wid <= 0:
+            if wid >= 0:
                 return self.build_word_id(dic_id, wid)
         return self.lexicons[0].get_word_id(headword, pos_id, reading_form)
 
-- 
2.43.0


From 65f1491284bd8a1a831cc3c99d23215de15280f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:52 +0000
Subject: [PATCH 02/18] fix: words of the eighth and later user dictionaries
 overflowed the node's word id

---
 sudachipy/latticenode.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index f931fb8..8d2f5ca 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -3,7 +3,7 @@ cdef class LatticeNode:
     cdef int begin
     cdef int end
     cdef int total_cost
-    cdef int word_id
+    cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
     cdef bint is_connected_to_bos
-- 
2.43.0


From cff47f3b3c030781f37870ab4691173f8f19eaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 03/18] fix: a failed analysis left its nodes in the lattice of
 the next one

---
 sudachipy/tokenizer.pyx | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index 18e21fa..d4690b4 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -143,19 +143,21 @@ class Tokenizer:
         logger.info('=== Inupt dump:')
         logger.info(input_.get_text())
 
-        self._build_lattice(input_)
+        try:
+            self._build_lattice(input_)
 
-        logger.info('=== Lattice dump:')
-        self._lattice.dump(logger)
+            logger.info('=== Lattice dump:')
+            self._lattice.dump(logger)
 
-        path = self._lattice.get_best_path()
+            path = self._lattice.get_best_path()
 
-        logger.info('=== Before Rewriting:')
-        self._dump_path(path, logger)
+            logger.info('=== Before Rewriting:')
+            self._dump_path(path, logger)
 
-        for plugin in self._path_rewrite_plugins:
-            plugin.rewrite(input_, path, self._lattice)
-        self._lattice.clear()
+            for plugin in self._path_rewrite_plugins:
+                plugin.rewrite(input_, path, self._lattice)
+        finally:
+            self._lattice.clear()
 
         path = self._split_path(path, mode)
 
-- 
2.43.0


From e6a7dc1d7432312bfc95397f1117c192aec31f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:23 +0000
Subject: [PATCH 04/18] fix: part-of-speech strings longer than 127 units were
 read back wrong

---
 sudachipy/dictionarylib/grammar.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 4118bd9..70b00d1 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -98,8 +98,10 @@ class Grammar:
     @staticmethod
     def bytes_get_string(bytes_):
         length = bytes_.read_byte()
+        if length > 127:
+            length = ((length & 0x7F) << 8) | bytes_.read_byte()
         string = bytes_.read(2 * length)
-        return string.decode('utf-16')
+        return string.decode('utf-16-le')
 
     @staticmethod
     def bytes_get_short(bytes_):
-- 
2.43.0


From b312927307397186d1ccaadc4107ef385315f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 05/18] fix: connection matrices that are not square were read
 with their sizes swapped

---
 sudachipy/dictionarylib/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/grammar.py b/sudachipy/dictionarylib/grammar.py
index 70b00d1..8010fa2 100644
--- a/sudachipy/dictionarylib/grammar.py
+++ b/sudachipy/dictionarylib/grammar.py
@@ -42,7 +42,7 @@ class Grammar:
         self._matrix_view = \
             memoryview(bytes_)[connect_table_offset: connect_table_offset + 2 * left_id_size * right_id_size]
         if left_id_size * right_id_size != 0:
-            self._matrix_view = self._matrix_view.cast('h', shape=[left_id_size, right_id_size])
+            self._matrix_view = self._matrix_view.cast('h', shape=[right_id_size, left_id_size])
         bytes_.seek(original_offset)
 
     def get_storage_size(self):
-- 
2.43.0


From a6554aafe0dc185985855df2ea999022f4fba5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:32 +0000
Subject: [PATCH 06/18] fix: a connection matrix with missing entries was
 written too short

---
 sudachipy/dictionarylib/dictionarybuilder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index bde5871..7353add 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -198,7 +198,7 @@ class DictionaryBuilder(object):
         self.byte_buffer.write_int(lsize, 'short')
         self.byte_buffer.write_int(rsize, 'short')
 
-        matrix = JTypedByteBuffer()
+        matrix = JTypedByteBuffer(b'\x00' * (2 * lsize * rsize))
 
         for i, line in enumerate(matrix_input.readlines()):
             line = line.strip()
@@ -209,6 +209,8 @@ class DictionaryBuilder(object):
                 self.logger.warn('invalid format at line {}'.format(i))
                 continue
             l, r, cost = [int(col) for col in cols]
+            if not (0 <= l < lsize and 0 <= r < rsize):
+                raise ValueError('invalid connection ID at line {}'.format(i))
             pos = matrix.tell()
             matrix.seek(2 * (l + lsize * r))
             matrix.write_int(cost, 'short')
-- 
2.43.0


From c669468a3e4f691c69a6a710719872f7acdd836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 07/18] fix: unicode escapes other than four or five
 hexadecimal digits were decoded wrong

---
 sudachipy/dictionarylib/dictionarybuilder.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 7353add..ee6e566 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -307,11 +307,7 @@ class DictionaryBuilder(object):
 
     def decode(self, str_):
         def replace(match):
-            uni_text = match.group()
-            uni_text = uni_text.replace('{', '').replace('}', '')
-            if len(uni_text) > 6:
-                uni_text = ('\\U000{}'.format(uni_text[2:]))
-            return uni_text.encode('ascii').decode('unicode-escape')
+            return chr(int(match.group(1).strip('{}'), 16))
         return re.sub(self.__PATTERN_UNICODE_LITERAL, replace, str_)
 
     def check_splitinfo_format(self, str_):
-- 
2.43.0


From 393a5121d7d773d74733ce9d57f0c31e72d3da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:58 +0000
Subject: [PATCH 08/18] fix: the length limit of a dictionary string counted
 characters, not the units stored

---
 sudachipy/dictionarylib/dictionarybuilder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index ee6e566..96acfdb 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -146,9 +146,13 @@ class DictionaryBuilder(object):
     def __is_length_valid(self, cols):
         head_length = len(cols[0].encode('utf-8'))
         return head_length <= self.__STRING_MAX_LENGTH \
-            and len(cols[4]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[11]) <= self.__STRING_MAX_LENGTH \
-            and len(cols[12]) <= self.__STRING_MAX_LENGTH
+            and self.__utf16_length(cols[4]) <= self.__STRING_MAX_LENGTH \
+            and self.__utf16_length(cols[11]) <= self.__STRING_MAX_LENGTH \
+            and self.__utf16_length(cols[12]) <= self.__STRING_MAX_LENGTH
+
+    @staticmethod
+    def __utf16_length(text):
+        return len(text.encode('utf-16-le')) // 2
 
     def add_to_trie(self, headword, word_id):
         key = headword.encode('utf-8')
-- 
2.43.0


From 12863702c966fbcc5cd04cb8def7d66a666d9811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:02 +0000
Subject: [PATCH 09/18] fix: the order of MeCab OOV candidates depended on the
 hash seed

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index 123b638..a12b92b 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -63,7 +63,7 @@ class MeCabOovPlugin(OovProviderPlugin):
         if length < 1:
             return []
         nodes = []
-        for type_ in input_text.get_char_category_types(offset):
+        for type_ in sorted(input_text.get_char_category_types(offset), key=lambda t: t.value):
             if type_ not in self.categories:
                 continue
             cinfo = self.categories[type_]
-- 
2.43.0


From d5646ba22c481c3c1de1b84bb9cc92df64cd7aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 10/18] fix: a replacementSymbol that is not one character long
 shifted later replacements

---
 sudachipy/plugin/input_text/prolongedsoundmark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/input_text/prolongedsoundmark.py b/sudachipy/plugin/input_text/prolongedsoundmark.py
index 6bfb2aa..0a0bc47 100644
--- a/sudachipy/plugin/input_text/prolongedsoundmark.py
+++ b/sudachipy/plugin/input_text/prolongedsoundmark.py
@@ -44,7 +44,7 @@ class ProlongedSoundMarkInputTextPlugin(InputTextPlugin):
             elif is_psm and cp not in self._psm_set:
                 if i - m_start_idx > 1:
                     builder.replace(m_start_idx - offset, i - offset, self._replace_symbol)
-                    offset += i - m_start_idx - 1
+                    offset += i - m_start_idx - len(self._replace_symbol)
                 is_psm = False
         if is_psm and n - m_start_idx > 1:
             builder.replace(m_start_idx - offset, n - offset, self._replace_symbol)
-- 
2.43.0


From 2cc62f952c8837790ab6d2f12aacd9626168d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 11/18] fix: text deleted at the end of the input vanished from
 the last surface

---
 sudachipy/utf8inputtextbuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sudachipy/utf8inputtextbuilder.py b/sudachipy/utf8inputtextbuilder.py
index c923fe8..c75c137 100644
--- a/sudachipy/utf8inputtextbuilder.py
+++ b/sudachipy/utf8inputtextbuilder.py
@@ -45,7 +45,8 @@ class UTF8InputTextBuilder:
         length = len(str_)
         if end - begin > length:
             del self.modified_to_original[begin + length:end]
-        self.modified_to_original[begin] = modified_begin
+        if begin < len(self.modified_text):
+            self.modified_to_original[begin] = modified_begin
         for i in range(1, length):
             if begin + i < end:
                 self.modified_to_original[begin + i] = modified_end
-- 
2.43.0


From 897ff874a8f8294d28f0d40ed06e384538d7b8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:30 +0000
Subject: [PATCH 12/18] fix: a comma in a part-of-speech column corrupted the
 part-of-speech table

---
 sudachipy/dictionarylib/dictionarybuilder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index 96acfdb..ac2d7f7 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -161,6 +161,8 @@ class DictionaryBuilder(object):
         self.trie_keys[key].append(word_id)
 
     def get_posid(self, strs):
+        if any(',' in str_ for str_ in strs):
+            raise ValueError('invalid part of speech')
         return self.pos_table.get_id(','.join(strs))
 
     def write_grammar(self, matrix_input_stream, output_stream):
-- 
2.43.0


From 1f5cdcb32d67fd4f01bd32b0eef499313fcfe05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 13/18] fix: the total cost of long texts overflowed and a path
 that is not the cheapest won

---
 sudachipy/lattice.pxd     | 2 +-
 sudachipy/lattice.pyx     | 5 +++--
 sudachipy/latticenode.pxd | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudachipy/lattice.pxd b/sudachipy/lattice.pxd
index ec2ce35..713fd5d 100644
--- a/sudachipy/lattice.pxd
+++ b/sudachipy/lattice.pxd
@@ -1,7 +1,7 @@
 from .latticenode cimport LatticeNode
 
 cdef extern from "limits.h":
-    cdef int INT_MAX
+    cdef long long LLONG_MAX
 
 cdef class Lattice:
 
diff --git a/sudachipy/lattice.pyx b/sudachipy/lattice.pyx
index fdb120e..f2f2c7c 100644
--- a/sudachipy/lattice.pyx
+++ b/sudachipy/lattice.pyx
@@ -87,7 +87,7 @@ cdef class Lattice:
 
     cdef void connect_node(self, LatticeNode r_node):
         begin = r_node.begin
-        r_node.total_cost = INT_MAX
+        r_node.total_cost = LLONG_MAX
 
         cdef LatticeNode l_node
         cdef int connect_cost
@@ -105,7 +105,8 @@ cdef class Lattice:
                 r_node.best_previous_node = l_node
 
         r_node.is_connected_to_bos = r_node.best_previous_node is not None
-        r_node.total_cost += r_node.cost
+        if r_node.is_connected_to_bos:
+            r_node.total_cost += r_node.cost
 
     cdef void connect_eos_node(self):
         self.connect_node(self.eos_node)
diff --git a/sudachipy/latticenode.pxd b/sudachipy/latticenode.pxd
index 8d2f5ca..c82e69f 100644
--- a/sudachipy/latticenode.pxd
+++ b/sudachipy/latticenode.pxd
@@ -2,7 +2,7 @@ cdef class LatticeNode:
 
     cdef int begin
     cdef int end
-    cdef int total_cost
+    cdef long long total_cost
     cdef unsigned int word_id
     cdef bint _is_oov
     cdef LatticeNode best_previous_node
-- 
2.43.0


From b3b8ae4c28a07fa8e078ec927a5d2349453b43d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:55 +0000
Subject: [PATCH 14/18] fix: a rejected character definition left its file open

---
 sudachipy/dictionarylib/charactercategory.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sudachipy/dictionarylib/charactercategory.py b/sudachipy/dictionarylib/charactercategory.py
index fdecef3..81c5aa6 100644
--- a/sudachipy/dictionarylib/charactercategory.py
+++ b/sudachipy/dictionarylib/charactercategory.py
@@ -126,18 +126,15 @@ class CharacterCategory(object):
         :param char_def: path
         """
 
-        if char_def is not None:
-            f = open(char_def, 'r', encoding="utf-8")
-        else:
-            f = open("char.def", 'r', encoding="utf-8")
+        with open("char.def" if char_def is None else char_def, 'r', encoding="utf-8") as f:
+            lines = f.readlines()
 
-        for i, line in enumerate(f.readlines()):
+        for i, line in enumerate(lines):
             line = line.rstrip()
             if re.fullmatch(r"\s*", line) or re.match("#", line):
                 continue
             cols = re.split(r"\s+", line)
             if len(cols) < 2:
-                f.close()
                 raise AttributeError("invalid format at line {}".format(i))
             if not re.match("0x", cols[0]):
                 continue
@@ -148,17 +145,14 @@ class CharacterCategory(object):
             if len(r) > 1:
                 range_.high = int(r[1], 16) + 1
             if range_.low >= range_.high:
-                f.close()
                 raise AttributeError("invalid range at line {}".format(i))
             for j in range(1, len(cols)):
                 if re.match("#", cols[j]) or cols[j] == '':
                     break
                 type_ = categorytype.CategoryType.get(cols[j])
                 if type_ is None:
-                    f.close()
                     raise AttributeError("{} is invalid type at line {}".format(cols[j], i))
                 range_.categories.append(type_)
             self.range_list.append(range_)
 
-        f.close()
         self._compile()
-- 
2.43.0


From 3ede6d84f8cfcf757992c03ca01190d634fe8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:20 +0000
Subject: [PATCH 15/18] fix: every tokenizer kept /dev/null open without using
 it

---
 sudachipy/tokenizer.pyx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/sudachipy/tokenizer.pyx b/sudachipy/tokenizer.pyx
index d4690b4..2cf0313 100644
--- a/sudachipy/tokenizer.pyx
+++ b/sudachipy/tokenizer.pyx
@@ -13,7 +13,6 @@
 # limitations under the License.
 
 import logging
-import os
 from enum import Enum
 from typing import List
 
@@ -81,8 +80,6 @@ class Tokenizer:
             A == short mode
             B == middle mode
             C == long mode
-        _dump_output:
-            file object to dump lattice structure
         _grammar:
 
         _input_text_plugins:
@@ -109,7 +106,6 @@ class Tokenizer:
         self._input_text_plugins = input_text_plugins
         self._oov_provider_plugins = oov_provider_plugins
         self._path_rewrite_plugins = path_rewrite_plugins
-        self._dump_output = open(os.devnull, 'w')
         self._lattice = Lattice(grammar)
         self._mode = mode or self.SplitMode.C
         self._logger = logging.getLogger(__name__)
-- 
2.43.0


From 1e8bfc85e8a8c1b4e90e2e6eeb8b0ead90c5f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:20 +0000
Subject: [PATCH 16/18] fix: unknown-word candidates shorter than the run were
 lost when a category had several entries

---
 sudachipy/plugin/oov/mecab_oov_plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sudachipy/plugin/oov/mecab_oov_plugin.py b/sudachipy/plugin/oov/mecab_oov_plugin.py
index a12b92b..c194c03 100644
--- a/sudachipy/plugin/oov/mecab_oov_plugin.py
+++ b/sudachipy/plugin/oov/mecab_oov_plugin.py
@@ -77,7 +77,7 @@ class MeCabOovPlugin(OovProviderPlugin):
                 s = input_text.get_substring(offset, offset + length)
                 for oov in oovs:
                     nodes.append(self.get_oov_node(s, oov, length))
-                    llength -= 1
+                llength -= 1
             for i in range(1, cinfo.length + 1):
                 sublength = input_text.get_code_points_offset_length(offset, i)
                 if sublength > llength:
-- 
2.43.0


From a9122e6f509af3167078a716269023672921dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:23 +0000
Subject: [PATCH 17/18] fix: a run not starting with a numeral was joined in
 part when more text followed

---
 sudachipy/plugin/path_rewrite/join_numeric_plugin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
index 060423c..cd9fd9e 100644
--- a/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
+++ b/sudachipy/plugin/path_rewrite/join_numeric_plugin.py
@@ -70,15 +70,15 @@ class JoinNumericPlugin(PathRewritePlugin):
                 continue
 
             if begin_index >= 0:
+                size = len(path)
                 if parser.done():
                     self._concat(path, begin_index, i, lattice, parser)
-                    i = begin_index + 1
                 else:
                     ss = path[i - 1].get_word_info().normalized_form
                     if (parser.error_state == NumericParser.Error.COMMA and ss == ',') or \
                        (parser.error_state == NumericParser.Error.POINT and ss == '.'):
                         self._concat(path, begin_index, i - 1, lattice, parser)
-                        i = begin_index + 2
+                i -= size - len(path)
             begin_index = -1
             if not comma_as_digit and s != ',':
                 comma_as_digit = True
-- 
2.43.0


From 628be334130c73ccec02686c13b0f7e7379af820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:29 +0000
Subject: [PATCH 18/18] fix: a split unit could not name a word with an escaped
 comma or slash

---
 sudachipy/dictionarylib/dictionarybuilder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sudachipy/dictionarylib/dictionarybuilder.py b/sudachipy/dictionarylib/dictionarybuilder.py
index ac2d7f7..d58fea0 100644
--- a/sudachipy/dictionarylib/dictionarybuilder.py
+++ b/sudachipy/dictionarylib/dictionarybuilder.py
@@ -105,7 +105,8 @@ class DictionaryBuilder(object):
     def parse_line(self, cols):
         if len(cols) < self.__MIN_REQUIRED_COLS_NUM:
             raise ValueError('invalid format')
-        cols = [self.decode(col) for col in cols]
+        # the split columns are decoded after they have been divided at '/' and ','
+        cols = [col if i in (15, 16, 17) else self.decode(col) for i, col in enumerate(cols)]
         if not self.__is_length_valid(cols):
             raise ValueError('string is too long')
         if not cols[0]:
@@ -351,14 +352,14 @@ class DictionaryBuilder(object):
         return id_
 
     def word_to_id(self, text):
-        cols = text.split(',')
+        cols = [self.decode(col) for col in text.split(',')]
         if len(cols) < 8:
             raise ValueError('too few columns')
-        headword = self.decode(cols[0])
+        headword = cols[0]
         pos_id = self.get_posid([cols[i] for i in range(1, 7)])
         if pos_id < 0:
             raise ValueError('invalid part of speech')
-        reading = self.decode(cols[7])
+        reading = cols[7]
         return self.get_wordid(headword, pos_id, reading)
 
     def get_wordid(self, headword, pos_id, reading_form):
-- 
2.43.0

