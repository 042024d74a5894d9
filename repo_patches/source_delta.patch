From a6f778cad63b9fd3329377c4447821c302b9b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:16 +0000
Subject: [PATCH 01/16] fix: the UTF-8 FROM_BRAHMIC romanizer rewrote nothing,
 as its alphabet lacked the ISO symbols

---
 nisaba/scripts/brahmic/iso.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/brahmic/iso.py b/nisaba/scripts/brahmic/iso.py
index d3f2474..e7b92c4 100644
--- a/nisaba/scripts/brahmic/iso.py
+++ b/nisaba/scripts/brahmic/iso.py
@@ -171,6 +171,12 @@ def _script_fsts(script: str, token_type: str) -> tuple[p.Fst, p.Fst]:
   return (from_nfced_script, to_nfced_script)
 
 
+def _output_sigma(fst: p.Fst) -> p.Fst:
+  """Accepts any single symbol that the FST outputs."""
+  labels = {arc.olabel for state in fst.states() for arc in fst.arcs(state)}
+  return p.union(*(p.escape(chr(label)) for label in sorted(labels - {0})))
+
+
 def generator_main(exporter_map: multi_grm.ExporterMapping):
   """Generate FSTs for ISO conversion of various Brahmic scripts."""
   for token_type in ('byte', 'utf8'):
@@ -183,11 +189,12 @@ def generator_main(exporter_map: multi_grm.ExporterMapping):
         sigma_fsts += [sigma]
         from_script, to_script = _script_fsts(script, token_type)
         from_script_fsts += [from_script]
+        if token_type == 'utf8':
+          # The rewrite below needs all of its output symbols in its alphabet.
+          sigma_fsts += [_output_sigma(from_script)]
         script = script.upper()
         exporter[f'FROM_{script}'] = from_script
         exporter[f'TO_{script}'] = to_script
-      # TODO: The utf8 version of `FROM_BRAHMIC` transducer is
-      # failing to rewrite any native script inputs.
       exporter['FROM_BRAHMIC'] = rw.Rewrite(
           p.union(*from_script_fsts).optimize(),
           sigma=p.union(*sigma_fsts).optimize()
-- 
2.43.0


From 8b083d9ffba6c5d17dd078a39875e2d2bd559905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:16 +0000
Subject: [PATCH 02/16] fix: AcceptText read brackets and backslashes in the
 text as Pynini markup

---
 nisaba/scripts/utils/far.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/far.py b/nisaba/scripts/utils/far.py
index c114040..6747ccc 100644
--- a/nisaba/scripts/utils/far.py
+++ b/nisaba/scripts/utils/far.py
@@ -79,7 +79,9 @@ class Far:
       """
       if not self._fst.properties(pynini.ACCEPTOR, True):
         warnings.warn('Underlying WFST is not an acceptor.', RuntimeWarning)
-      lattice = text @ self._fst
+      # Square brackets and backslash carry special meaning in Pynini.
+      # So they need to be escaped for unmanaged strings.
+      lattice = pynini.escape(text) @ self._fst
       return lattice.start() != pynini.NO_STATE_ID
 
   def __init__(self, path_to_far: os.PathLike[str]) -> None:
-- 
2.43.0


From 6767fee37c20fe0bbcdbea4945a80923b7b2b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:57 +0000
Subject: [PATCH 03/16] fix: Gujarati words with ai or au had no
 transliteration
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A_TO_EC turned the first part of the diphthongs {a}{+}{i} and {a}{+}{u} into a
schwa, and the result has neither IPA nor a romanization: ISO_TO_IPA, ISO_TO_NAT,
ISO_TO_PSAC and ISO_TO_PSAF for Gujarati gave no output at all (e.g. for maitrī
or aitihāsik).
---
 nisaba/scripts/natural_translit/brahmic/g2p.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/g2p.py b/nisaba/scripts/natural_translit/brahmic/g2p.py
index 00796a7..5a65f1c 100644
--- a/nisaba/scripts/natural_translit/brahmic/g2p.py
+++ b/nisaba/scripts/natural_translit/brahmic/g2p.py
@@ -40,12 +40,13 @@ ph = psa.PHONEME_INVENTORY
 # Vowels
 
 # TODO: Convert this constant to a function where duration and diphthong
-# context are passed as arguments, and remove the recovery rule.
+# context are passed as arguments, and remove the recovery rules.
 # The current rule rewrites all /a/ to /ə/ including the diphthongs like /ai/,
-# and recovers long a with /ə:/ -> /a:/ but not the diphthongs.
+# and recovers long a with /ə:/ -> /a:/ and the diphthongs with /ə+/ -> /a+/.
 A_TO_EC = (
     rw.rewrite(ph.A, ph.EC) @
-    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH)
+    rw.rewrite(ph.EC + ph.DURH, ph.A + ph.DURH) @
+    rw.rewrite(ph.EC, ph.A, following=al.enclose_phoneme(al.COMBINE))
 )
 A_AE = rw.reassign(gr.A_I, ph.A, ph.AE)
 
-- 
2.43.0


From b1a7c859922d9f67ca4c98fda01fc0a9f05c77e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:19 +0000
Subject: [PATCH 04/16] fix: Tamil deromanization keeps a single 'tr' as t and
 r, as documented
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The mappings of only_geminated were also in the group of all consonants, so
that 'tr' became 'ṟ' as well as 'trtr' and 'ttr' 'ṟṟ'.
---
 nisaba/scripts/natural_translit/brahmic/deromanizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/brahmic/deromanizer.py b/nisaba/scripts/natural_translit/brahmic/deromanizer.py
index 23fa864..483b5a7 100644
--- a/nisaba/scripts/natural_translit/brahmic/deromanizer.py
+++ b/nisaba/scripts/natural_translit/brahmic/deromanizer.py
@@ -179,7 +179,7 @@ class Deromanizer(i.Inventory):
     Eg. Tamil consonant group:
     ta.consonant {
         3: [zh_lr]
-        2: [ch, tr_rr, ...]
+        2: [ch, sh, ...]
         1: [b_p, d_t, ...]
     }
     """
@@ -261,7 +261,7 @@ class Deromanizer(i.Inventory):
     self._add_to_groups(has_aspirated, self.consonant, self.has_aspirated)
     self._add_to_groups(drops_aspirated, self.consonant, self.drops_aspirated)
     self._add_to_groups(no_aspirated, self.consonant, self.no_aspirated)
-    self._add_to_groups(only_geminated, self.consonant, self.only_geminated)
+    self._add_to_groups(only_geminated, self.only_geminated)
     self._add_to_groups(foreign, self.consonant, self.foreign)
     self._apply_by_priority(self.foreign, self.cons_foreign, self._rw_foreign)
     self._apply_by_priority(
-- 
2.43.0


From 0304953e73627909d0f935d2021d48f7824b01f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:50 +0000
Subject: [PATCH 05/16] fix: looking for a feature in a value list or an aspect
 recursed without end

---
 nisaba/scripts/natural_translit/utils/feature.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 2f7a0ea..3cd5327 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -498,7 +498,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: Feature.Aspect.VALUES) -> bool:
       """Checks if the given value or one of its children is in this list."""
-      return value.is_in(self)
+      return self.set().has_feature(value)
 
     def is_in(self, obj) -> bool:
       """Checks if this list is contained within the given object."""
@@ -651,7 +651,7 @@ class Feature(ty.Thing):
 
     def has_feature(self, value: VALUES) -> bool:
       """Checks if the given value or one of its children is in this aspect."""
-      return value.is_in(self)
+      return self.all.has_feature(value)
 
     def is_applicable(self, profile: Feature.Profile) -> bool:
       """Checks if this aspect is applicable to the given profile."""
-- 
2.43.0


From 7456d17057a756a722311c43b90fae17f0454b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:50 +0000
Subject: [PATCH 06/16] fix: compare profiles by a single aspect

---
 nisaba/scripts/natural_translit/utils/feature.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 3cd5327..4b3c8b0 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -884,6 +884,8 @@ class Feature(ty.Thing):
         }
       if isinstance(aspects, ty.Nothing):
         aspects = self.inventory
+      elif isinstance(aspects, Feature.Aspect):
+        aspects = [aspects]
       total_dist = 0
       max_dist = 0
       headers = ['aspect', self.text, p.text, 'distance']
-- 
2.43.0


From 5f52a25173b030ab107f81b10a31bee303d9b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:50 +0000
Subject: [PATCH 07/16] fix: profiles are alike where no distance is possible,
 instead of a division by zero

---
 nisaba/scripts/natural_translit/utils/feature.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 4b3c8b0..7743873 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -903,7 +903,7 @@ class Feature(ty.Thing):
               ', '.join(item2.sorted_item_texts()),
               f'{dist:.2f}',
           ])
-      similarity = 1 - total_dist / max_dist
+      similarity = 1 - total_dist / max_dist if max_dist else 1
       table.extend([
           ['Total distance', '', '', f'{total_dist:.2f}'],
           ['Similarity', '', '', f'{similarity:.3f}'],
-- 
2.43.0


From 4551daceccc0e0e54d1fe9d9e9363c727ed0a2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:50 +0000
Subject: [PATCH 08/16] fix: the distance between items of a value list
 depended on their order

---
 nisaba/scripts/natural_translit/utils/feature.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/natural_translit/utils/feature.py b/nisaba/scripts/natural_translit/utils/feature.py
index 7743873..d508f41 100644
--- a/nisaba/scripts/natural_translit/utils/feature.py
+++ b/nisaba/scripts/natural_translit/utils/feature.py
@@ -398,7 +398,9 @@ class Feature(ty.Thing):
     ) -> float:
       if values1 not in self or values2 not in self:
         return Feature.ERROR_DISTANCE
-      delta = self._items.index(values2) - self._items.index(values1)
+      delta = abs(self._items.index(values2) - self._items.index(values1))
+      if not delta:
+        return 0
       match self.list_type:
         case Feature.ValueListType.EQUIDISTANT:
           return self.step
-- 
2.43.0


From 6fa491e18e9b60a9143b4c92489ee1ef9c221f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:20 +0000
Subject: [PATCH 09/16] fix: expressions with recurring symbol lists were not
 accepted by their equals

---
 nisaba/scripts/natural_translit/utils/symbol.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index 6e0b214..6e81413 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -97,14 +97,13 @@ class Item(ty.Thing):
           equivalent and self.is_expression_any() and other.is_expression_any()
       ) or not equivalent
     self_symbols, other_symbols = self.symbols(), other.symbols()
-    self_len, other_len = len(self_symbols), len(other_symbols)
-    if (
-        not self_len
-        or self_len < other_len
-        or (equivalent and self_len != other_len)
-    ):
+    if not self_symbols or (equivalent and not other_symbols):
       return False
-    return all(sym_list in self_symbols for sym_list in other_symbols)
+    # Either side can have recurring symbol lists, eg. a.ques() + a.ques().
+    return all(sym_list in self_symbols for sym_list in other_symbols) and (
+        not equivalent
+        or all(sym_list in other_symbols for sym_list in self_symbols)
+    )
 
   def is_equivalent(self, other: Item) -> bool:
     return self.accepts(other, equivalent=True)
-- 
2.43.0


From 281db19d214754a66fb491c177cdb69475cad1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:20 +0000
Subject: [PATCH 10/16] fix: a symbol was never the prefix or suffix of an
 expression

---
 nisaba/scripts/natural_translit/utils/symbol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/symbol.py b/nisaba/scripts/natural_translit/utils/symbol.py
index 6e81413..f1797d8 100644
--- a/nisaba/scripts/natural_translit/utils/symbol.py
+++ b/nisaba/scripts/natural_translit/utils/symbol.py
@@ -241,8 +241,12 @@ class Item(ty.Thing):
   # For example, if a rule requires a vowel as following context but there is no
   # following context, the rule shouldn't apply.
 
+  def _is_empty(self) -> bool:
+    # Symbols have no items, but they are not empty.
+    return not self and (not isinstance(self, Symbol) or self.is_eps())
+
   def head_matches(self, other: Item) -> bool:
-    if self and not other:
+    if other._is_empty() and not self._is_empty():
       return other.is_expression_any()
     return self.contains(other, match_head=True)
 
@@ -250,7 +254,7 @@ class Item(ty.Thing):
     return other.head_matches(self)
 
   def tail_matches(self, other: Item) -> bool:
-    if self and not other:
+    if other._is_empty() and not self._is_empty():
       return other.is_expression_any()
     return self.contains(other, match_tail=True)
 
-- 
2.43.0


From 9993914b3a76e5bca6b463743c881cf3d156c4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:20 +0000
Subject: [PATCH 11/16] fix: alignments ignored an applied cost given as an
 integer

---
 nisaba/scripts/natural_translit/utils/expression.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/expression.py b/nisaba/scripts/natural_translit/utils/expression.py
index 7a46f45..b6445a0 100644
--- a/nisaba/scripts/natural_translit/utils/expression.py
+++ b/nisaba/scripts/natural_translit/utils/expression.py
@@ -506,8 +506,10 @@ class Alignment(_BaseAlignment):
     self.to_eos = to_eos
     self.operation = operation
     self.priority = priority
-    self.applied_cost = ty.type_check(
-        applied_cost, float(self.operation.base_cost)
+    self.applied_cost = float(
+        self.operation.base_cost
+        if isinstance(applied_cost, ty.Nothing)
+        else applied_cost
     )
     self.source = source
 
-- 
2.43.0


From a74fa33835214e84636137116a3b838619d9670e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:00 +0000
Subject: [PATCH 12/16] fix: lattices shared one default FST, and the state of
 their error node could belong to another FST

---
 nisaba/scripts/natural_translit/utils/lattice.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/lattice.py b/nisaba/scripts/natural_translit/utils/lattice.py
index 8d7f1bb..ff4c943 100644
--- a/nisaba/scripts/natural_translit/utils/lattice.py
+++ b/nisaba/scripts/natural_translit/utils/lattice.py
@@ -14,6 +14,8 @@
 
 """Lattice class for building aligner FSTs."""
 
+from typing import Union
+
 import pynini as pyn
 from nisaba.scripts.natural_translit.utils import log_op as log
 from nisaba.scripts.natural_translit.utils import type_op as ty
@@ -78,22 +80,23 @@ class Lattice(ty.Thing):
       alias: str,
       width: int,
       height: int,
-      fst: pyn.Fst = pyn.Fst(),
-      error: Node = Node('error'),
+      fst: Union[pyn.Fst, ty.Nothing] = ty.UNSPECIFIED,
+      error: Union[Node, ty.Nothing] = ty.UNSPECIFIED,
       populate: bool = False,
   ):
     super().__init__(alias)
     self.text = alias
-    self.fst = fst
+    self.fst = pyn.Fst() if isinstance(fst, ty.Nothing) else fst
     self.width = width
     self.height = height
     self._nodes = [
         [self._new_node(x, y) for x in range(self.width)]
         for y in range(self.height)
     ]
-    self.error = error
-    if error.fst is not self.fst:
-      error.fst = self.fst
+    self.error = Node('error') if isinstance(error, ty.Nothing) else error
+    if self.error.fst is not self.fst:
+      self.error.fst = self.fst
+      self.error.state = ty.UNASSIGNED
     if not self.error.has_state():
       self.error.state = self.fst.add_state()
     if populate:
-- 
2.43.0


From 3bbe14dc53eb07be69fcd15b50bf1c6e69d40244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:54 +0000
Subject: [PATCH 13/16] =?UTF-8?q?fix:=20the=20vowel=20=C3=B8=20had=20no=20?=
 =?UTF-8?q?height,=20though=20it=20is=20close-mid?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 .../natural_translit/phonology/inventories/docs/x_uni.md        | 2 +-
 nisaba/scripts/natural_translit/phonology/inventories/x_uni.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/natural_translit/phonology/inventories/docs/x_uni.md b/nisaba/scripts/natural_translit/phonology/inventories/docs/x_uni.md
index 40a0c32..c9556ad 100644
--- a/nisaba/scripts/natural_translit/phonology/inventories/docs/x_uni.md
+++ b/nisaba/scripts/natural_translit/phonology/inventories/docs/x_uni.md
@@ -457,7 +457,7 @@ to reflect the language-specific use.
 | manner           | not_applicable |
 | place            | not_applicable |
 | articulator      | not_applicable |
-| height           | any            |
+| height           | close_mid      |
 | backness         | front          |
 | breathiness      | none           |
 | voicing          | voiced         |
diff --git a/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py b/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
index 86f8745..7eec2eb 100644
--- a/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
+++ b/nisaba/scripts/natural_translit/phonology/inventories/x_uni.py
@@ -74,7 +74,7 @@ def _phoneme_inventory() -> po.Phon.Inventory:
     open_mid_vowel.update_descriptives(phf.height.open_mid)
   for mid_vowel in [ph.ec]:
     mid_vowel.update_descriptives(phf.height.mid)
-  for close_mid_vowel in [ph.e, ph.el, ph.eo, ph.o, ph.ol]:
+  for close_mid_vowel in [ph.e, ph.el, ph.eo, ph.o, ph.oi, ph.ol]:
     close_mid_vowel.update_descriptives(phf.height.close_mid)
   for near_close_vowel in [ph.iy, ph.uv, ph.uy]:
     near_close_vowel.update_descriptives(phf.height.near_close)
-- 
2.43.0


From d8d89e27ec55fe5e0a508fc8e71e15ddfb6c17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:17 +0000
Subject: [PATCH 14/16] fix: read the fields of rule files as text, digits and
 quotation marks included

---
 nisaba/scripts/utils/rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/rule.py b/nisaba/scripts/utils/rule.py
index d98b12c..f611bad 100644
--- a/nisaba/scripts/utils/rule.py
+++ b/nisaba/scripts/utils/rule.py
@@ -60,6 +60,7 @@ CDRewrites of the FSTs from each rule.
 """
 
 from collections.abc import Iterable, Iterator
+import csv
 import itertools as it
 import os
 from typing import NamedTuple
@@ -86,7 +87,8 @@ def rules_from_string_path(file: os.PathLike[str]) -> Iterator[Rule]:
   """Yields string rules from a text file with unweighted string maps."""
   with pathlib.Path(file).open('rt') as f:
     df = pd.read_csv(f, sep='\t', comment='#', escapechar='\\',
-                     names=['lhs', 'rhs'], na_filter=False)
+                     names=['lhs', 'rhs'], na_filter=False, dtype=str,
+                     quoting=csv.QUOTE_NONE)
     for row in df.itertuples(index=False, name='Rule'):
       if not row.lhs:
         raise ValueError('Rule expects an LHS: {}'.format(row))
-- 
2.43.0


From 9cfcf07dc14b700ee47f8ceb83d0357069e8f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:17 +0000
Subject: [PATCH 15/16] fix: accept names of character sequences, as documented

---
 nisaba/scripts/utils/unicode_strings_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index a4f45b1..b7666fa 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -41,7 +41,8 @@ def name_to_char(prefixes: Sequence[str], suffix: str) -> tuple[str, str]:
     uname = (prefix + ' ' + suffix).lstrip()
     try:
       char = unicodedata.lookup(uname)
-      if unicodedata.category(char) != 'Cc':
+      # A sequence name, such as `TAMIL SYLLABLE JO`, gives several characters.
+      if all(unicodedata.category(c) != 'Cc' for c in char):
         char_names.append((char, uname))
     except KeyError:
       pass
-- 
2.43.0


From 0eca24112aaef61728dd57a8febb51deae016b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:17 +0000
Subject: [PATCH 16/16] fix: read items without a destination string

---
 nisaba/scripts/utils/unicode_strings_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index b7666fa..feb7c18 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -164,9 +164,11 @@ def _fill_missing_raw(pb: unicode_strings_pb2.UnicodeStrings) -> None:
     None
   """
   for item in pb.item:
-    item.raw, item.to_raw = convert_item(
+    item.raw, to_raw = convert_item(
         pb.uname_prefix, pb.to_uname_prefix, item
     )
+    if to_raw is not None:
+      item.to_raw = to_raw
 
 
 def read_textproto(
-- 
2.43.0

