From 52c023df5fb2436280796f0c330c5ae0dd70be66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 01/65] fix: give variant labels the disposition of the first
 action they trigger

The eligibility pre-test applied the actions without the variant types of the
label, so that a later action without variant condition could turn a variant
invalid although an earlier action, triggered by its types, applies.
---
 lgr/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 634826d..316d9f1 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1163,11 +1163,13 @@ class LGR(object):
 
             # 8.3.  Determining a Disposition for a Label or Variant Label
             # Step 1
-            eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
-                                                                                     is_variant=variant_cp != label,
-                                                                                     collect_log=collect_log)
+            # Only test that the label is in the LGR here: its disposition is
+            # the one of the first action triggered with its variant types
+            (eligible, _, variant_invalid_parts) = self._test_preliminary_eligibility(variant_cp)
             if not eligible:
+                rule_logger.error("Label '%s' is not in the LGR", format_cp(variant_cp))
                 variant_disp = INVALID_DISPOSITION
+                idx = -1
             else:
                 # 8.3.  Determining a Disposition for a Label or Variant Label
                 # Step 2 - 3
-- 
2.43.0


From f54ad40839c754ed5346545af4ee8daedf7cdf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 02/65] fix: generate the variants of every partition of a
 label with sequences

---
 lgr/core.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 316d9f1..aeb903c 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1686,8 +1686,9 @@ class LGR(object):
         :return: list of valid prefix characters.
         """
         prefix_list = []
-        for prefix in self.repertoire.get_chars_from_prefix(label[0],
-                                                            only_variants=True):
+        # Characters without variant are needed too: the remainder of the label
+        # may only be in the LGR, or have variants, after one of these.
+        for prefix in self.repertoire.get_chars_from_prefix(label[0]):
             # Ensure prefix is valid for label
             if not prefix.is_prefix_of(label):
                 continue
@@ -1779,19 +1780,13 @@ class LGR(object):
             same_prefix = []
         else:
             if len(same_prefix) == 0:
-                # No code point in LGR with variants,
+                # No code point in LGR complying with its context rule,
                 # stick to first one found (longest in label)
                 for cp in self.repertoire.get_chars_from_prefix(label[0]):
                     if cp.is_prefix_of(label):
                         same_prefix = [cp]
                         break
 
-        for char in [ch for ch in same_prefix if isinstance(ch, CharSequence)]:
-            # char is a sequence, if first code point of the sequence is in the LGR we need to consider it
-            for cp in self.repertoire.get_chars_from_prefix(label[0]):
-                if len(cp) < len(char) and cp.is_prefix_of(label):
-                    same_prefix.append(cp)
-
         # Iterate through characters matching the start of the label
         for char in same_prefix:
             rule_logger.debug("Char %s", format_cp(char.cp))
-- 
2.43.0


From a885e78c10b689e192b7351fe5319f859b49ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:59 +0000
Subject: [PATCH 03/65] fix: evaluate index label context rules on the actual
 rest of the label

---
 lgr/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index aeb903c..a60cef8 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1359,9 +1359,10 @@ class LGR(object):
         logger.debug("Computing index label for partition: %s", chars)
         index_label = []
         prefix = tuple()
-        suffix = tuple(c for cp in chars[1:] for c in cp.cp)
+        suffix = tuple(c for cp in chars for c in cp.cp)
         idx = 0
         for char in chars:
+            suffix = suffix[len(char):]
             logger.debug('Char CP: %s', format_cp(char.cp))
             # Index: smallest id of the char and its variants
             ids = [list(char.cp)]
@@ -1378,7 +1379,6 @@ class LGR(object):
             logger.debug('List of variant ids: %s', ids)
             index_label.extend(list(min(ids)))
             prefix += char.cp
-            suffix = suffix[len(char):]
             idx += len(char)
 
         logger.debug("Index label: '%s'", index_label)
-- 
2.43.0


From 457ea94bb6743e5a7851ef63cde51f3e1213645d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 04/65] fix: keep the label's own code points and never mix two
 other scripts when hiding mixed-script variants

---
 lgr/core.py                         | 18 ++++++++++++------
 lgr/mixed_scripts_variant_filter.py | 20 ++++++++++++++++++++
 2 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index a60cef8..95563f5 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1792,6 +1792,7 @@ class LGR(object):
             rule_logger.debug("Char %s", format_cp(char.cp))
 
             has_reflexive_mapping = False
+            keep_original = not hide_mixed_script_variants or first_call or mixed_script_filter.keeps_original(char.cp)
             # List of character permutations,
             # including original character (see below)
             # Format: (cp, (type list), is variant?)
@@ -1808,10 +1809,16 @@ class LGR(object):
                 variant_label = label_prefix + var.cp + tuple(label[len(char):])
 
                 if hide_mixed_script_variants:
-                    if first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
-                        rule_logger.debug("Variant script is eligible for non mixed-scripts", format_cp(var.cp))
-                        script_filter = mixed_script_filter.get_filter_for_other_script(
-                            self.unicode_database.get_script(var.cp[0]))
+                    if var.cp == char.cp:
+                        # Reflexive variant is kept along with the original code point
+                        if not keep_original:
+                            continue
+                    elif first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
+                        script_filter = mixed_script_filter.get_filter_for_other_variant(var.cp)
+                        if script_filter is None:
+                            rule_logger.debug("Variant %s contains mixed-scripts", format_cp(var.cp))
+                            continue
+                        rule_logger.debug("Variant %s script is eligible for non mixed-scripts", format_cp(var.cp))
                     elif not mixed_script_filter.cp_in_base_scripts(var.cp):
                         rule_logger.debug("Variant %s contains mixed-scripts", format_cp(var.cp))
                         continue
@@ -1842,8 +1849,7 @@ class LGR(object):
             # is applied to any of the permuted labels containing
             # the original code point.
             # Also ignore char that are not part of the label in the current script if required
-            if not has_reflexive_mapping and (not hide_mixed_script_variants or first_call or
-                                              mixed_script_filter.cp_in_base_scripts(char.cp)):
+            if not has_reflexive_mapping and keep_original:
                 char_perms.insert(0, (char, frozenset(), False, mixed_script_filter))
 
             if len(label) > len(char):
diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index c6a2ed2..0ac3bfc 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -46,6 +46,12 @@ class BaseMixedScriptsVariantFilter:
     def cp_in_other_scripts(self, cp: Tuple[ord]) -> bool:
         return False
 
+    def keeps_original(self, cp: Tuple[ord]) -> bool:
+        """
+        Whether original code points of the label can be kept in the variant.
+        """
+        return self.cp_in_base_scripts(cp)
+
 
 class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
     IGNORED_SCRIPTS = {'Common', 'Inherited'}
@@ -58,6 +64,10 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
     def cp_in_other_scripts(self, cp: Tuple[ord]) -> bool:
         return self.cp_in_scripts(cp, self.other_scripts)
 
+    def keeps_original(self, cp: Tuple[ord]) -> bool:
+        # Base scripts are the ones of the label, including code points with ignored scripts
+        return True
+
     def _get_base_scripts(self, label: Tuple[int]) -> Set[str]:
         scripts = set()
         for c in label:
@@ -71,6 +81,16 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         f.base_scripts = get_permitted_scripts({script})
         return f
 
+    def get_filter_for_other_variant(self, cp: Tuple[ord]):
+        """
+        Get the filter for labels starting with a variant in other scripts, None if its scripts cannot be used together.
+        """
+        for char in cp:
+            f = self.get_filter_for_other_script(self.unidb.get_script(char))
+            if f.cp_in_base_scripts(cp):
+                return f
+        return None
+
     def _get_scripts_for_variants(self, label: Tuple[int], repertoire: Repertoire) -> Set[str]:
         """
         Get a set of scripts that can be used for variant generation when filtering cross-script variants.
-- 
2.43.0


From 998f4dce9099d0f337bc78f017c08a6a2d330564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 05/65] fix: count every partition and permitted script in the
 estimated number of variants

---
 lgr/core.py | 56 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 95563f5..2a14ac1 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1256,32 +1256,46 @@ class LGR(object):
         :param hide_mixed_script_variants: Whether we count mixed scripts variants.
         :return: Estimated number of generated variants.
         """
-        (_, _, _, chars) = self._test_preliminary_eligibility(label, generate_chars=True)
-        variant_number = 1
-
         def vars_excl_reflexive(current_char):
             return [v for v in current_char.get_variants() if v.cp != current_char.cp]
 
-        if hide_mixed_script_variants:
+        def count_labels(label_part, number_for_char):
+            # Number of labels, over all the partitions of label_part in repertoire characters
+            numbers = [0] * len(label_part) + [1]
+            for i in reversed(range(len(label_part))):
+                for char in chars_in_label(label_part[i:]):
+                    numbers[i] += number_for_char(char) * numbers[i + len(char)]
+            return numbers[0]
+
+        def chars_in_label(label_part):
             try:
-                mixed_script_filter = MixedScriptsVariantFilter(label, self.repertoire, unidb=self._unicode_database)
+                return [char for char in self.repertoire.get_chars_from_prefix(label_part[0])
+                        if char.is_prefix_of(label_part)]
             except NotInLGR:
-                return 0
-            for char in chars:
-                variant_number *= len(
-                    [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_base_scripts(v.cp)]
-                ) + 1  # Take into account original code point
-            for script in mixed_script_filter.other_scripts:
-                other_script_number = 1
-                for char in chars:
-                    other_script_number *= len(
-                        [v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_scripts(v.cp, {script})]
-                    )
-                variant_number += other_script_number
-        else:
-            for char in chars:
-                variant_number *= len(vars_excl_reflexive(char)) + 1  # Take into account original code point
-        return variant_number
+                # may be a code point from a sequence
+                return []
+
+        label = tuple(label)
+        if not hide_mixed_script_variants:
+            # Take into account original code point
+            return max(1, count_labels(label, lambda char: len(vars_excl_reflexive(char)) + 1))
+
+        mixed_script_filter = MixedScriptsVariantFilter(label, self.repertoire, unidb=self._unicode_database)
+        variant_number = count_labels(
+            label,
+            lambda char: len([v for v in vars_excl_reflexive(char) if mixed_script_filter.cp_in_base_scripts(v.cp)]) + 1)
+        # Other scripts are selected by the variants of the first character
+        for char in chars_in_label(label):
+            for var in vars_excl_reflexive(char):
+                if not mixed_script_filter.cp_in_other_scripts(var.cp):
+                    continue
+                other_filter = mixed_script_filter.get_filter_for_other_variant(var.cp)
+                if other_filter is None:
+                    continue
+                variant_number += count_labels(
+                    label[len(char):],
+                    lambda c: len([v for v in vars_excl_reflexive(c) if other_filter.cp_in_base_scripts(v.cp)]))
+        return max(1, variant_number)
 
     def generate_index_label(self, label, max_recursion=0):
         """
-- 
2.43.0


From 72956ee07ab60d0b9722939e992c165135f91a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 06/65] fix: classes without code points match nothing wherever
 they are in a rule

---
 lgr/classes.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index f054701..722fb23 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -17,6 +17,9 @@ logger = logging.getLogger(__name__)
 # So use this char to avoid any collision.
 TAG_CLASSNAME_PREFIX = "#__internal_tag_"
 
+# Regex for a class without any code point: never matches
+EMPTY_SET_PATTERN = r'[^\x{0}-\x{10FFFF}]'
+
 
 def set_to_rvalue(cp_set, as_set):
     """
@@ -24,7 +27,7 @@ def set_to_rvalue(cp_set, as_set):
 
     If `cp_set` is empty and `as_set` is False, then the rvalue is a text
     pattern to be used in regex. As the set is empty, '[]' is not a valid
-    regex, so take care of this case here.
+    regex, so return a pattern which cannot match any code point.
 
     :param cp_set: Code point set.
     :param as_set: If True, rvalue is a set, unicode string otherwise.
@@ -34,9 +37,9 @@ def set_to_rvalue(cp_set, as_set):
         return cp_set
     else:
         if len(cp_set) == 0:
-            # Empty set, we have to return empty string
-            # because '[]' is an invalid REGEX
-            return ''
+            # '[]' is an invalid REGEX, and an empty pattern would match
+            # when it is not the only element of a rule.
+            return EMPTY_SET_PATTERN
         else:
             return text_type(cp_set)
 
-- 
2.43.0


From 03f1393eeb233d4252ea61df1cc79d8ee2bd86cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:35 +0000
Subject: [PATCH 07/65] fix: allow '%' in the classes of context rules

---
 lgr/rule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/rule.py b/lgr/rule.py
index 12beed3..5cdd3b0 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -164,9 +164,9 @@ class Rule(object):
                 anchor = None
             else:
                 # Format anchor - Can be a sequence.
-                # Use old-style formatting, see note in matcher.AnchorMatcher
-                pattern = pattern % {'anchor': ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
-                                                           anchor))}
+                # Formatting cannot be used as '%' may be in the pattern of a class
+                pattern = pattern.replace('%(anchor)s', ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
+                                                                    anchor)))
         rule_logger.debug("Pattern for rule %s: '%s'", self, pattern)
         try:
             regex = unicode_database.compile_regex(pattern)
-- 
2.43.0


From f27b3fbeef0d097184af2bd38c7bd02af5f8104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:21 +0000
Subject: [PATCH 08/65] fix: keep the rest of a range when one of its code
 points is deleted

---
 lgr/char.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/lgr/char.py b/lgr/char.py
index ba94f83..7ee347a 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -541,10 +541,14 @@ class Repertoire(object):
         assert len(cp_or_sequence), "there should be at least one char"
 
         char = CharBase.from_cp_or_sequence(cp_or_sequence)
+        if char in self:
+            char = self.get_char(char.cp)
         if not self._del_char(char):
             logger.error("Code point '%s' does not exist",
                          format_cp(cp_or_sequence))
             raise NotInLGR(cp_or_sequence)
+        if isinstance(char, RangeChar):
+            self._split_range(char)
 
     def add_range(self, first_cp, last_cp,
                   comment=None, ref=None,
@@ -878,6 +882,38 @@ class Repertoire(object):
                 return True
         return False
 
+    def _split_range(self, deleted_char):
+        """
+        Update a range one of the code points of which was deleted.
+
+        What is left becomes up to two ranges, or single code points.
+
+        :param deleted_char: RangeChar object deleted from the dictionary.
+
+        >>> cd = Repertoire()
+        >>> cd.add_range(0x002A, 0x002D)
+        >>> cd.del_char([0x002B])
+        >>> cd.ranges == [(0x002C, 0x002D)]
+        True
+        >>> [c.cp for c in cd] == [(0x002A,), (0x002C,)]
+        True
+        """
+        cp = deleted_char.cp[0]
+        first_cp, last_cp = deleted_char.first_cp, deleted_char.last_cp
+        self.ranges.remove((first_cp, last_cp))
+        for (first, last) in ((first_cp, cp - 1), (cp + 1, last_cp)):
+            if first == last:
+                char = self.get_char([first])
+                self._del_char(char)
+                self.add_char([first], comment=char.comment,
+                              ref=list(char.references), tag=list(char.tags),
+                              when=char.when, not_when=char.not_when)
+            elif first < last:
+                for range_cp in range(first, last + 1):
+                    char = self.get_char([range_cp])
+                    char.first_cp, char.last_cp = first, last
+                self.ranges.append((first, last))
+
     def _add_char(self, char):
         """
         Generic function to add a char into the dictionary.
-- 
2.43.0


From 66d41687f120d97f8739ba49b93d8a64d8cd89e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 09/65] fix: insert a range in the repertoire completely or not
 at all

---
 lgr/char.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lgr/char.py b/lgr/char.py
index 7ee347a..4671485 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -591,11 +591,16 @@ class Repertoire(object):
                          format_cp(first_cp), format_cp(last_cp))
             raise RangeAlreadyExists(first_cp, last_cp)
 
+        for cp in range(first_cp, last_cp + 1):
+            # Do not insert part of a range
+            if cp in self:
+                logger.error("Char '%s' already exists", format_cp(cp))
+                raise CharAlreadyExists((cp,))
+
         for cp in range(first_cp, last_cp + 1):
             char = RangeChar(cp, first_cp, last_cp,
                              comment=comment, ref=ref, tag=tag,
                              when=when, not_when=not_when)
-            # TODO: clean-up range on error.
             self._add_char(char)
 
         # Insert by first cp
-- 
2.43.0


From 4b529d5080b45e37894cf8d5dd24d6f59b765530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:58 +0000
Subject: [PATCH 10/65] fix: collapse empty lists of code points and lists with
 duplicates

---
 lgr/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lgr/utils.py b/lgr/utils.py
index 4893154..e0456f3 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -124,8 +124,10 @@ def collapse_codepoints(codepoints):
     True
     """
     result = []
-    # Sort list
-    codepoints = sorted(codepoints)
+    # Sort list, a code point may be there several times
+    codepoints = sorted(set(codepoints))
+    if not codepoints:
+        return result
     first_cp = codepoints[0]
     last_cp = codepoints[0]
     for cp in codepoints[1:]:
-- 
2.43.0


From 6adf1b48ce2126e0fa8839453d4eceb83a15c9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 11/65] fix: check the code points of an overridden range for
 existing ones before adding it

---
 lgr/core.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 2a14ac1..0c4b9ef 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -473,24 +473,30 @@ class LGR(object):
                                        validating_repertoire)
         codepoints = []
         for (cp, status) in check_range:
-            if status is None:
-                codepoints.append(cp)
-            elif isinstance(status, NotInRepertoire):
+            if isinstance(status, CharInvalidIdnaProperty):
+                logger.error("CP '%s' is not IDNA valid", format_cp(cp))
+                if self.raise_on_invalid_property:
+                    if not force:
+                        raise status
+                    continue
+                # Invalid property is accepted, but other checks still apply
+                status = None
+                if validating_repertoire is not None and not validating_repertoire.check_cp(cp):
+                    status = NotInRepertoire(cp)
+            if isinstance(status, NotInRepertoire):
                 logger.warning("CP '%s' is not in repertoire %s",
                                format_cp(cp), validating_repertoire)
                 if not override_repertoire and not force:
                     raise status
-                else:
-                    logger.warning("Overriding repertoire '%s' "
-                                   "for code point '%s'",
-                                   validating_repertoire, format_cp(cp))
-                    codepoints.append(cp)
-            elif isinstance(status, CharInvalidIdnaProperty):
-                logger.error("CP '%s' is not IDNA valid", format_cp(cp))
-                if not self.raise_on_invalid_property:
-                    codepoints.append(cp)
-                elif not force:
-                    raise status
+                logger.warning("Overriding repertoire '%s' "
+                               "for code point '%s'",
+                               validating_repertoire, format_cp(cp))
+                status = None
+            if status is None and cp in self.repertoire:
+                # Not tested by check_range if a previous test failed
+                status = CharAlreadyExists([cp])
+            if status is None:
+                codepoints.append(cp)
             elif isinstance(status, CharAlreadyExists):
                 logger.error("CP '%s' is already present in repertoire",
                              format_cp(cp))
-- 
2.43.0


From 599001c23d6cc22d6d80489d13c09aa5773104eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:17 +0000
Subject: [PATCH 12/65] fix: keep tag classes in line when ranges or sequences
 are deleted

---
 lgr/core.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 0c4b9ef..41dd389 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -581,7 +581,11 @@ class LGR(object):
             logger.error('First code point of range is greater than last')
             raise LGRApiInvalidParameter('first_cp')
 
+        tags = []
+        if (first_cp, last_cp) in self.repertoire.ranges:
+            tags = self.repertoire.get_char([first_cp]).tags
         self.repertoire.del_range(first_cp, last_cp)
+        self._del_cp_from_tag_classes(range(first_cp, last_cp + 1), tags)
 
     def expand_ranges(self):
         """
@@ -2144,7 +2148,11 @@ class LGR(object):
         for tag in tags:
             tag_classname = TAG_CLASSNAME_PREFIX + tag
             if tag_classname in self.classes_lookup:
-                self.classes_lookup[tag_classname].del_codepoint(cp_or_sequence)
+                # Keep code points which still have the tag in another entry
+                kept = {c for char in self.repertoire.all_repertoire()
+                        if tag in char.tags for c in char.cp}
+                self.classes_lookup[tag_classname].del_codepoint(
+                    [c for c in cp_or_sequence if c not in kept])
 
     def __unicode__(self):
         return self.name
-- 
2.43.0


From 3ab974d578df30eb9486c1f8db2731a9c79b3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 13/65] fix: delete every occurrence of a repeated reference or
 tag

---
 lgr/char.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index 4671485..b933a34 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -829,10 +829,10 @@ class Repertoire(object):
         """
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if ref_id in char.references:
+                while ref_id in char.references:
                     char.references.remove(ref_id)
                 for variant in char.get_variants():
-                    if ref_id in variant.references:
+                    while ref_id in variant.references:
                         variant.references.remove(ref_id)
 
     def del_tag(self, tag_id):
@@ -844,7 +844,7 @@ class Repertoire(object):
         """
         for cp_list in self._chardict.values():
             for char in cp_list:
-                if tag_id in char.tags:
+                while tag_id in char.tags:
                     char.tags.remove(tag_id)
 
     def get_chars_from_prefix(self, cp, only_variants=False):
-- 
2.43.0


From 5c19ca2bc47877fa911347aebbadf9ff274e5067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 14/65] fix: leave citations alone when the reference to delete
 is not defined

---
 lgr/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 41dd389..621aac3 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -223,8 +223,8 @@ class LGR(object):
         :param ref_id:
         :raises ReferenceNotDefined: if the ref_id is not defined.
         """
-        self.repertoire.del_reference(ref_id)
         self.reference_manager.del_reference(ref_id)
+        self.repertoire.del_reference(ref_id)
 
     def del_tag(self, tag_id):
         """
-- 
2.43.0


From 226d844ca3f668aee6ec0f04fe6fb74de499f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:14 +0000
Subject: [PATCH 15/65] fix: cite references by their text id

---
 lgr/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 621aac3..ebf87ec 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -224,7 +224,7 @@ class LGR(object):
         :raises ReferenceNotDefined: if the ref_id is not defined.
         """
         self.reference_manager.del_reference(ref_id)
-        self.repertoire.del_reference(ref_id)
+        self.repertoire.del_reference(str(ref_id))
 
     def del_tag(self, tag_id):
         """
@@ -316,7 +316,7 @@ class LGR(object):
         references = []
         for ref_id in ref if ref is not None else []:
             if ref_id in self.reference_manager:
-                references.append(ref_id)
+                references.append(str(ref_id))
             else:
                 logger.warning("Reference id '%s' for code point '%s' "
                                "is not defined",
@@ -511,7 +511,7 @@ class LGR(object):
         references = []
         for ref_id in ref if ref is not None else []:
             if ref_id in self.reference_manager:
-                references.append(ref_id)
+                references.append(str(ref_id))
             else:
                 logger.warning("Reference id '%s' for range '%s-%s' "
                                "is not defined",
@@ -715,7 +715,7 @@ class LGR(object):
         references = []
         for ref_id in ref if ref is not None else []:
             if ref_id in self.reference_manager:
-                references.append(ref_id)
+                references.append(str(ref_id))
             else:
                 logger.warning("Reference id '%s' for "
                                "variant '%s' of code point '%s' "
-- 
2.43.0


From 32433f1fe8015fa700292046481c8a656e0dbaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:59 +0000
Subject: [PATCH 16/65] fix: refuse reference ids that are empty or end with a
 line break

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 2097fa2..8e26819 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -348,7 +348,7 @@ class ReferenceManager(OrderedDict):
     so if no ref_id is given, generate one int-based id, converted to string.
     """
 
-    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]*$'
+    REFERENCE_REGEX = r'^[\-_.:0-9A-Z]+\Z'
 
     def __init__(self, *args, **kwargs):
         super(ReferenceManager, self).__init__(*args, **kwargs)
-- 
2.43.0


From 78da9528720c285e8758bb80bf0b3ece54a75b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 17/65] fix: count a code point carrying the same tag twice
 only once in statistics

---
 lgr/validate/lgr_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/lgr_stats.py b/lgr/validate/lgr_stats.py
index e10ce62..6e91feb 100644
--- a/lgr/validate/lgr_stats.py
+++ b/lgr/validate/lgr_stats.py
@@ -63,7 +63,7 @@ def generate_stats(lgr):
         elif isinstance(char, Char):
             stats['codepoint_number'] += 1
 
-        for t in char.tags:
+        for t in dict.fromkeys(char.tags):  # The same tag may be there several times
             if t in stats['codepoints_by_tag']:
                 stats['codepoints_by_tag'][t] += range_len
             else:
-- 
2.43.0


From 708d8e450b561b55713eeffbc811a70bf77aed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:43 +0000
Subject: [PATCH 18/65] fix: do not extend the global list of checks when RFC
 7940 checks are asked for

---
 lgr/validate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/__init__.py b/lgr/validate/__init__.py
index abdbe7f..d408306 100644
--- a/lgr/validate/__init__.py
+++ b/lgr/validate/__init__.py
@@ -50,7 +50,7 @@ def validate_lgr(lgr, options):
 
     result = []
 
-    TO_RUN = CHECKS
+    TO_RUN = list(CHECKS)
     if options.get('rfc7940'):
         TO_RUN += RFC7940_CHECKS
 
-- 
2.43.0


From a07eae85f929349b8b880190c722ac92b4db5548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:47 +0000
Subject: [PATCH 19/65] fix: check the data of an LGR even if one of its
 dispositions is not standard

---
 lgr/validate/miscellaneous.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 6af4988..35c4bfb 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -115,7 +115,9 @@ def check_miscellaneous(lgr, options):
         'repertoire': []
     }
 
-    success = check_lgr_rules(lgr) and check_lgr_data(lgr)
+    # Always run both checks
+    success = check_lgr_rules(lgr)
+    success = check_lgr_data(lgr) and success
 
     logger.info("Miscellaneous test done")
 
-- 
2.43.0


From c65ffb3c2ff4e117fa173ade4f0fd89ea5591608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:51 +0000
Subject: [PATCH 20/65] fix: note the check of variant types as executed for
 LGRs with ranges only or without code points

---
 lgr/validate/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 35c4bfb..8aab903 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -36,7 +36,7 @@ def check_lgr_data(lgr):
                     logging.error("Bad variant type '%s'", t)
                     success = False
                     lgr.notify_error('data_variant_type')
-        lgr.notify_tested('data_variant_type')
+    lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
     unidb_version = lgr.unicode_database.get_unicode_version()
-- 
2.43.0


From 8cf8836f17dfe6857b2698ef0d8b5049497544f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:33 +0000
Subject: [PATCH 21/65] fix: check symmetry and transitivity of LGRs with code
 points invalid in their Unicode database

---
 lgr/validate/symmetry.py     | 2 +-
 lgr/validate/transitivity.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/validate/symmetry.py b/lgr/validate/symmetry.py
index b1c0173..55f9ea9 100644
--- a/lgr/validate/symmetry.py
+++ b/lgr/validate/symmetry.py
@@ -57,7 +57,7 @@ def check_symmetry(lgr, options):
             # let's see if the original character is in its
             # variants
             reverse = []
-            for v in lgr.get_variants(b.cp):
+            for v in lgr.repertoire.get_variants(b.cp):
                 if a.cp == v.cp:
                     reverse.append(v)
 
diff --git a/lgr/validate/transitivity.py b/lgr/validate/transitivity.py
index 6a5cc30..2973a17 100644
--- a/lgr/validate/transitivity.py
+++ b/lgr/validate/transitivity.py
@@ -45,7 +45,7 @@ def check_transitivity(lgr, options):
         for b in a_variants:
             logger.debug("A: '%s' - B: '%s'", format_cp(a.cp), format_cp(b.cp))
             try:
-                variants = lgr.get_variants(b.cp)
+                variants = lgr.repertoire.get_variants(b.cp)
             except NotInLGR:
                 logger.error("Code point '%s' not in LGR", format_cp(b.cp))
                 success = False
-- 
2.43.0


From 2dccd889e9267363b81e287f0c9b750563ea4de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 22/65] fix: refuse dates with huge numbers like other invalid
 dates

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 8e26819..3551d4f 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -57,7 +57,7 @@ def _validate_date(date, force):
                                         date_elements[2])
             if date_object.isoformat() == date:
                 return date
-        except ValueError:
+        except (ValueError, OverflowError):
             logger.log(logging.WARNING if force else logging.ERROR,
                        "Invalid date format: '%s'", date)
             if force:
-- 
2.43.0


From 0addcc317ac9ef75475d6cc0f16cb37f42728365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 23/65] fix: check the whole of a Unicode version

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 3551d4f..fc2e251 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -322,7 +322,7 @@ class Metadata(object):
                                     has an invalid format.
         """
 
-        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}', unicode_version) is None:
+        if re.match(r'[0-9]+\.[0-9]+\.[0-9]+\Z', unicode_version) is None:
             logger.log(logging.WARNING if force else logging.ERROR,
                        "Invalid Unicode version: '%s'", unicode_version)
             self.rfc7940_checks.error('valid_unicode_version')
-- 
2.43.0


From d6166df2fca62a350ce0c809af69680ff11bf6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:15 +0000
Subject: [PATCH 24/65] fix: metadata version is a decimal integer without line
 end or digits of other scripts

---
 lgr/validate/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/metadata.py b/lgr/validate/metadata.py
index acb89d2..504fd73 100644
--- a/lgr/validate/metadata.py
+++ b/lgr/validate/metadata.py
@@ -74,7 +74,7 @@ def check_metadata(lgr, options):
 
     # Version
     if lgr.metadata.version is not None:
-        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value):
+        if not re.match(r'[1-9][0-9]*\Z', lgr.metadata.version.value):
             lgr.notify_error('metadata_version_integer')
             success = False
     lgr.notify_tested('metadata_version_integer')
-- 
2.43.0


From aa3034c3d67826e8a4225efeae57d5f38727e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 25/65] fix: populating variants of code points in a range

populate_lgr failed (range has no variant) when a variant was a code point
of a range; expand such a range first, as harmonization does.
---
 lgr/populate/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/populate/__init__.py b/lgr/populate/__init__.py
index 044a6d1..2ecf3ca 100644
--- a/lgr/populate/__init__.py
+++ b/lgr/populate/__init__.py
@@ -6,6 +6,7 @@ from __future__ import unicode_literals
 
 import logging
 
+from lgr.char import RangeChar
 from lgr.exceptions import NotInLGR
 from lgr.validate.symmetry import check_symmetry
 from lgr.validate.transitivity import check_transitivity
@@ -25,7 +26,10 @@ def populate_lgr(lgr):
     for a in lgr.repertoire:
         for b in a.get_variants():
             try:
-                lgr.get_variants(b.cp)
+                char = lgr.get_char(b.cp)
+                if isinstance(char, RangeChar):
+                    # Code points of a range cannot have variants
+                    lgr.expand_range(char.first_cp, char.last_cp)
             except NotInLGR:
                 logger.info("Add missing code point '{}' in LGR as it is a variant of '{}'".format(
                     format_cp(b.cp), format_cp(a.cp)))
-- 
2.43.0


From 84d5e47a232b857077af0ba9910ea929885a6bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 26/65] fix: union of LGRs keeps the variants of code points of
 the first LGR only

Variants were only copied for code points of the second LGR.
---
 lgr/tools/compare/union.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 887f53b..8542bc1 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -332,6 +332,11 @@ def union_lgrs(lgr1, lgr2):
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
+        for v in char.get_variants():
+            lgr.add_variant(char.cp, v.cp, variant_type=v.type,
+                            when=v.when, not_when=v.not_when,
+                            comment=v.comment)
+
     for cp in set.difference(second_cps, first_cps):
         char = lgr2.get_char(cp)
 
-- 
2.43.0


From ff79266ecc3e0c1bb6370de5c26c36d188fc7959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 27/65] fix: scopes of the second LGR in union and intersection

The scopes of the first LGR were used twice.
---
 lgr/tools/compare/intersect.py | 2 +-
 lgr/tools/compare/union.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 3bbbc69..7d538bc 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -85,7 +85,7 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(first.scopes))
+    output.scopes = set.intersection(set(first.scopes), set(second.scopes))
     output.languages = set.intersection(set(first.languages),
                                         set(second.languages))
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 8542bc1..fe2e4cd 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -94,7 +94,7 @@ def union_metadata(first, second):
         output.description = union_description(first.description,
                                                second.description)
 
-    output.scopes = set.union(set(first.scopes), set(first.scopes))
+    output.scopes = set.union(set(first.scopes), set(second.scopes))
     output.languages = set.union(set(first.languages),
                                  set(second.languages))
 
-- 
2.43.0


From 691d951d98175f7c02d09d6ad72249450dc58910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 28/65] fix: union keeps the version and description of the
 second LGR

They were lost when the first LGR had none.
---
 lgr/tools/compare/union.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index fe2e4cd..db639b4 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -88,11 +88,9 @@ def union_metadata(first, second):
 
     output = Metadata()
 
-    if first.version is not None:
-        output.version = union_version(first.version, second.version)
-    if first.description is not None:
-        output.description = union_description(first.description,
-                                               second.description)
+    output.version = union_version(first.version, second.version)
+    output.description = union_description(first.description,
+                                           second.description)
 
     output.scopes = set.union(set(first.scopes), set(second.scopes))
     output.languages = set.union(set(first.languages),
-- 
2.43.0


From 8a4f28d48af8f98ffe26b09aca9ccedec2a3dc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 29/65] fix: intersection keeps the order of actions

The order of actions decides which one is applied, and was lost by
going through a set.
---
 lgr/tools/compare/intersect.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 7d538bc..fbbd41a 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -157,7 +157,9 @@ def intersect_actions(lgr1, lgr2):
     # Intersection of actions:
     # - keep same actions.
 
-    actions = list(set.intersection(set(lgr1.actions), set(lgr2.actions)))
+    # - keep order, as the first triggered action is the one applied.
+
+    actions = [a for a in lgr1.actions if a in lgr2.actions]
     actions_xml = [lgr1.actions_xml[lgr1.actions.index(a)] for a in actions]
 
     return actions, actions_xml
-- 
2.43.0


From 7b785e52b31630a755794e96e9be10642052c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 30/65] fix: union and intersection keep the context rules of
 common code points

when and not-when were dropped for code points present in both LGRs, which
made them valid everywhere in the resulting LGR.
---
 lgr/tools/compare/intersect.py | 7 ++++++-
 lgr/tools/compare/union.py     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index fbbd41a..4fcdf1e 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -135,7 +135,12 @@ def intersect_char(lgr, first, second):
 
     tags = list(set.intersection(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # Same behavior as other attributes: user has to choose between different
+    # context rules (force is required to have both a when and a not-when).
+    lgr.add_cp(first.cp, comment=comment, tag=tags,
+               when=let_user_choose(first.when, second.when),
+               not_when=let_user_choose(first.not_when, second.not_when),
+               force=True)
 
     variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
     variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index db639b4..7207138 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -142,7 +142,12 @@ def union_char(lgr, first, second):
 
     tags = list(set.union(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # Same behavior as other attributes: user has to choose between different
+    # context rules (force is required to have both a when and a not-when).
+    lgr.add_cp(first.cp, comment=comment, tag=tags,
+               when=let_user_choose(first.when, second.when),
+               not_when=let_user_choose(first.not_when, second.not_when),
+               force=True)
 
     for v in set.union(set(first.get_variants()), set(second.get_variants())):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
-- 
2.43.0


From edd6b33f85087da772a482856d5e3181dfaa9db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 31/65] fix: intersection keeps the type of common variants

The variants of the intersection had no type at all.
---
 lgr/tools/compare/intersect.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 4fcdf1e..fcf2e13 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -142,11 +142,14 @@ def intersect_char(lgr, first, second):
                not_when=let_user_choose(first.not_when, second.not_when),
                force=True)
 
-    variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
-    variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
-
-    for v in set.intersection(variant_first, variant_second):
-        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
+    variant_second = list(second.get_variants())
+    for v in first.get_variants():
+        if v not in variant_second:
+            continue
+        other = variant_second[variant_second.index(v)]
+        lgr.add_variant(first.cp, v.cp,
+                        variant_type=let_user_choose(v.type, other.type),
+                        when=v.when, not_when=v.not_when)
 
 
 def intersect_actions(lgr1, lgr2):
-- 
2.43.0


From e0d283d6ff75dead3a8cbca18000c6221b49170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 32/65] fix: map the references of code points present in
 several LGRs of a set

The ids of the references of a code point already merged from another LGR were
kept as they are in their own LGR, where they may denote another reference in
the merged one.
---
 lgr/tools/merge_set.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 5982621..c4609b8 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -340,7 +340,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
             existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
-            existing_char.references = set.union(set(existing_char.references), set(char.references))
+            new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
+            existing_char.references = list(OrderedDict.fromkeys(existing_char.references + new_ref))
 
             # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
-- 
2.43.0


From 7b511a691d53911fe228880d12453daeea4f9d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 33/65] fix: make the relation of a merged set transitive
 without duplicating variants

Variants were only combined pairwise on a common code point, comparing
conditional variants before their rules are renamed: the relation was not
transitive when two chains met, reflexive variants were added and merging
raised VariantAlreadyExists.
---
 lgr/tools/merge_set.py | 63 +++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index c4609b8..e8f05e6 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -20,6 +20,7 @@ from io import BytesIO
 from collections import OrderedDict
 
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
+from lgr.char import Variant
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
 from lgr.tools.compare.utils import compare_objects
@@ -314,6 +315,28 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         merged_lgr.classes_xml.append(merged_class_xml)
 
 
+def add_transitive_variants(merged_lgr):
+    """
+    Make code points reachable from each other through variants variants of each other.
+
+    :param merged_lgr: The merged LGR
+    """
+    for char in merged_lgr.repertoire:
+        known = set(v.cp for v in char.get_variants())
+        reachable = [char.cp]
+        # reachable grows while being iterated
+        for cp in reachable:
+            if cp not in merged_lgr.repertoire:
+                continue
+            for v in merged_lgr.get_variants(cp):
+                if v.cp in reachable:
+                    continue
+                reachable.append(v.cp)
+                if v.cp not in known:
+                    merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked',
+                                           comment='New variant for merge to keep transitivity')
+
+
 def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
     """
     Merge chars from LGR set.
@@ -324,7 +347,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
     :param ref_mapping: The reference mapping from base LGR to new LGR
     :param previous_scripts: The scripts that has already been processed
     """
-    new_variants = []
+    has_common_chars = False
     merged_chars = {char: char for char in merged_lgr.repertoire}
     for char in lgr.repertoire:
         if len(char.cp) == 1 and lgr.unicode_database is not None:
@@ -338,32 +361,14 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
 
         if existing_char:
             # same cp already in LGR
+            has_common_chars = True
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
             existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
             new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
             existing_char.references = list(OrderedDict.fromkeys(existing_char.references + new_ref))
 
-            # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
-            # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
-            # script 2, we need to set b as c variant and conversely). We do that after processing all code points
-            # as the code point for the new variant may not be in the merged LGR in the current iteration.
-            new_v1 = set.difference(set(char.get_variants()), set(existing_char.get_variants()))
-            new_v2 = set.difference(set(existing_char.get_variants()), set(char.get_variants()))
-            # remove cp itself to avoid error with reflexive variants
-            for v in new_v1:
-                if v.cp == existing_char.cp:
-                    new_v1.remove(v)
-                    break
-            for v in new_v2:
-                if v.cp == existing_char.cp:
-                    new_v2.remove(v)
-                    break
-            if new_v1 and new_v2:
-                new_variants.append((new_v1, new_v2))
-
             # add new variants to current code point
-            # do not keep new_v1 as reflexive variant may have been removed
-            for v in set.difference(set(char.get_variants()), set(existing_char.get_variants())):
+            for v in char.get_variants():
                 new_ref = [ref_mapping[script].get(x, x) for x in v.references]
                 new_when = None
                 new_not_when = None
@@ -371,6 +376,8 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                     new_when = script + '-' + v.when
                 if v.not_when:
                     new_not_when = script + '-' + v.not_when
+                if Variant(v.cp, when=new_when, not_when=new_not_when) in existing_char.get_variants():
+                    continue
                 merged_lgr.add_variant(existing_char.cp, v.cp, variant_type='blocked',
                                        when=new_when, not_when=new_not_when,
                                        comment=v.comment, ref=new_ref)
@@ -440,14 +447,12 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                                    comment=v.comment, ref=new_ref,
                                    when=when, not_when=not_when)
 
-    # handle transitivity for variants that differ between scripts
-    for var1_list, var2_list in new_variants:
-        for v1 in var1_list:
-            for v2 in var2_list:
-                merged_lgr.add_variant(v1.cp, v2.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
-                merged_lgr.add_variant(v2.cp, v1.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
+    # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
+    # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
+    # script 2, we need to set b as c variant and conversely). We do that after processing all code points
+    # as the code point for the new variant may not be in the merged LGR while processing them.
+    if has_common_chars:
+        add_transitive_variants(merged_lgr)
 
 
 def merge_lgr_set(lgr_set, name):
-- 
2.43.0


From bca7bfc5302c261d18804343a931c7283afec7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 34/65] fix: refuse to merge a code point under when in one LGR
 and not-when in another

The merged code point got both rules, which RFC 7940 does not allow.
---
 lgr/tools/merge_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index e8f05e6..ae28a79 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -388,7 +388,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             #    no rule but cp has one, keep the cp rule with prefixed with the current script)
             #  - if existing cp has the same when/not-when rules (same name, content is not checked), update cp WLE with
             #    the prefix from this script
-            #  - if existing cp has a different rule (not the same name), raise an exception
+            #  - if existing cp has a different rule (not the same name, or not-when instead of when), raise an exception
             existing_when = existing_char.when
             existing_not_when = existing_char.not_when
             # retrieve WLE names
@@ -398,6 +398,10 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
                 if existing_char.not_when:
                     existing_not_when = re.sub(r'^{}-'.format(other_script), '', existing_not_when)
 
+            if (char.when and existing_not_when) or (char.not_when and existing_when):
+                # a code point cannot have both rules
+                raise CharInvalidContextRule(char.cp, char.when or char.not_when)
+
             if char.when:
                 if not existing_when:
                     existing_char.when = script + '-' + char.when
-- 
2.43.0


From 06825b7d51fb665056ae16db415d63602811408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 35/65] fix: rename only the rule an action refers to when
 merging a set

Every occurrence of the name of the rule in the XML of the action was
replaced, including in the disposition or in the name of the element.
---
 lgr/tools/merge_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index ae28a79..88bf631 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -174,14 +174,14 @@ def rename_action(action, action_xml, script):
         else:
             # Prefix MSR action with 'Common-'
             new_action.match = 'Common-' + action.match
-        action_xml = action_xml.replace(action.match, new_action.match)
+        action_xml = action_xml.replace('match="%s"' % action.match, 'match="%s"' % new_action.match)
     if action.not_match:
         if action.not_match not in MSR_2_RULES:
             new_action.not_match = script + '-' + action.not_match
         else:
             # Prefix MSR action with 'Common-'
             new_action.not_match = 'Common-' + action.not_match
-        action_xml = action_xml.replace(action.not_match, new_action.not_match)
+        action_xml = action_xml.replace('match="%s"' % action.not_match, 'match="%s"' % new_action.not_match)
 
     return new_action, action_xml
 
-- 
2.43.0


From 344c6b6158d3a00f30095a3ee915cae84ac8e5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 36/65] fix: keep the references of the parts of a rule or
 class when merging a set

All the references found in the XML of a rule or class were replaced by those
of the rule or class itself.
---
 lgr/tools/merge_set.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 88bf631..2f079c9 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -158,6 +158,19 @@ def merge_references(lgr, script, merged_lgr, ref_mapping):
                     ref_mapping[script][ref_id] = inserted_references[ref]
 
 
+def rename_references(xml, mapping):
+    """
+    Replace the ids of references in a XML element and its children
+
+    :param xml: The XML text
+    :param mapping: The new id of the references that have one
+    :return: Updated XML
+    """
+    return re.sub(r'(?<!by-)ref="([^"]+)"',
+                  lambda m: 'ref="{}"'.format(" ".join(mapping.get(x, x) for x in m.group(1).split())),
+                  xml)
+
+
 def rename_action(action, action_xml, script):
     """
     Prefix action matches with script
@@ -207,7 +220,7 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         # Replace references in python object and XML
         new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
         merged_action.references = new_ref
-        merged_action_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_action_xml)
+        merged_action_xml = rename_references(merged_action_xml, ref_mapping.get(script, {}))
 
         merged_lgr.actions.append(merged_action)
         merged_lgr.actions_xml.append(merged_action_xml)
@@ -262,9 +275,8 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
             # MSR-2
             continue
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in rule.references]
-        merged_rule_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_rule_xml)
+        # Replace references in XML
+        merged_rule_xml = rename_references(merged_rule_xml, ref_mapping.get(script, {}))
 
         merged_lgr.rules.append(merged_rule_name)
         merged_lgr.rules_xml.append(merged_rule_xml)
@@ -307,9 +319,8 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         class_xml = lgr.classes_xml[lgr.classes.index(classe.name)]
         merged_class_name, merged_class_xml = rename_class(classe, class_xml, script)
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in classe.references]
-        merged_class_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_class_xml)
+        # Replace references in XML
+        merged_class_xml = rename_references(merged_class_xml, ref_mapping.get(script, {}))
 
         merged_lgr.classes.append(merged_class_name)
         merged_lgr.classes_xml.append(merged_class_xml)
-- 
2.43.0


From 593a9d0db5126c5710326e35efda9d1ef4fe3299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 37/65] fix: list each collision between three labels or more
 once

The labels to compare with were only computed for the first label: the
collisions between the others were listed both ways.
---
 lgr/tools/diff_collisions.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 8785e83..05aa731 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -265,13 +265,9 @@ def _get_new_variants(new_labels, old_labels):
 
 
 def dump_collisions(colliding1, cb, colliding2=None, **kwargs):
-    idx = 0
-    list2 = colliding2
-    for l1 in colliding1:
-        idx += 1
-        if list2 is None:
-            # do not display the same collision permuted
-            list2 = colliding1[idx:]
+    for idx, l1 in enumerate(colliding1, 1):
+        # do not display the same collision permuted
+        list2 = colliding1[idx:] if colliding2 is None else colliding2
         for l2 in list2:
             if l1 != l2:
                 yield cb(l1, l2, **kwargs)
-- 
2.43.0


From bf4a5bf133c59f4740b8d9df6842ff22307cdaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 38/65] fix: annotate labels that the first action makes
 ineligible with that action

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 6247d92..b4982e9 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -13,7 +13,7 @@ logger = logging.getLogger(__name__)
 
 def _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
     yield "%s: %s\n" % (label, disp)
-    if not eligible and action_idx > 0:
+    if not eligible and action_idx >= 0:
         yield " Rule %s: %s\n" % (action_idx, lgr.effective_actions[action_idx])
     for cp_not_in_lgr, rules in label_invalid_parts:
         yield " Code point {cp} {reason}\n".format(
-- 
2.43.0


From 99a8f7967320022ee54cb3d9a85d70ff56d79c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 39/65] fix: only annotate labels that collide with the labels
 of the set as such

Any collision between the labels of the set themselves was reported for every
annotated label.
---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index b4982e9..badee17 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -82,7 +82,7 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 if label in filtered_set:
                     collision = 'Label is in the LGR set labels'
                 indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
-                if len(indexes) > 0:
+                if any(label == l['label'] for group in indexes.values() for l in group):
                     collision = 'Label collides with the LGR set labels'
 
             out = disp
-- 
2.43.0


From 40eda2351b18ce356291c718b128c055f5def71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 40/65] fix: list collisions with a label of the list that is a
 TLD as collisions with a TLD

They were listed a second time as collisions within the input file.
---
 lgr/tools/diff_collisions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 05aa731..f1238f3 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -285,8 +285,8 @@ def _write_complete_output(labels, label_indexes, tlds=None):
                      "Category:    \t{label_cat:{len}} | {variant_cat}" +
                      MD)
 
-    def print_collision(label, variant):
-        return output_labels.format(col='existing TLDs' if TLD in [label['cat'], variant['cat']] else 'input file',
+    def print_collision(label, variant, col='input file'):
+        return output_labels.format(col=col,
                                     label="%s" % label['bidi'],
                                     variant="%s" % variant['bidi'],
                                     label_cp="[%s]" % label['cp_out'],
@@ -311,7 +311,8 @@ def _write_complete_output(labels, label_indexes, tlds=None):
                 yield col
 
         if colliding_tlds:
-            for col in dump_collisions(colliding_labels, print_collision, colliding2=colliding_tlds):
+            for col in dump_collisions(colliding_labels, print_collision, colliding2=colliding_tlds,
+                                       col='existing TLDs'):
                 yield col
 
     if not collided:
-- 
2.43.0


From 760f152ba6566c30d75c4d7906144cf950c6876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 41/65] fix: report differences of the context rules of code
 points

---
 lgr/tools/compare/diff.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index f6c5e81..6ba283e 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -215,7 +215,9 @@ def diff_char(first, second, show_same=True):
     variant_second = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in second.get_variants()}
 
     if not show_same and \
-                    first.comment == second.comment and first.tags == second.tags and variant_first == variant_second:
+                    first.comment == second.comment and first.tags == second.tags and \
+                    first.when == second.when and first.not_when == second.not_when and \
+                    variant_first == variant_second:
         return output
 
     output += compare_things(first.comment, second.comment, "comment",
@@ -223,6 +225,11 @@ def diff_char(first, second, show_same=True):
     output += compare_things(first.tags, second.tags, "tags",
                              show_same=show_same)
 
+    output += compare_things(first.when, second.when, "when",
+                             show_same=show_same)
+    output += compare_things(first.not_when, second.not_when, "not-when",
+                             show_same=show_same)
+
     output += compare_things(variant_first, variant_second, "variants", True,
                              lambda v: ", ".join(map(display_variant, v)),
                              show_same=show_same)
-- 
2.43.0


From 733c38ab51cfd42987cee03084c5309e08144bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 42/65] fix: iterate over sequences of the same length in
 ascending order

---
 lgr/char.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/char.py b/lgr/char.py
index b933a34..a0b6926 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -427,7 +427,7 @@ class Repertoire(object):
             if last_cp is not None and last_cp < index:
                 last_cp = None
 
-            for char in sorted(char_list, key=lambda c: len(c.cp)):
+            for char in sorted(char_list, key=lambda c: c.cp):
 
                 if isinstance(char, RangeChar):
                     if last_cp is not None:
-- 
2.43.0


From 4a3d6d415fbae58502e4aec9b8df81b40a4cee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 43/65] fix: write descriptions that contain the end of a CDATA
 section

---
 lgr/parser/xml_serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_serializer.py b/lgr/parser/xml_serializer.py
index 70c08ae..95204c8 100644
--- a/lgr/parser/xml_serializer.py
+++ b/lgr/parser/xml_serializer.py
@@ -100,8 +100,8 @@ def _serialize_meta(lgr, meta):
             node.attrib['type'] = metadata.description.description_type
 
         content = metadata.description.value
-        if metadata.description.description_type not in [None, 'text/plain']:
-            # Wrap content in CDATA section
+        if metadata.description.description_type not in [None, 'text/plain'] and ']]>' not in content:
+            # Wrap content in CDATA section, which cannot contain its own end
             content = etree.CDATA(content)
         node.text = content
 
-- 
2.43.0


From d9b97964cd89a241577dd1a679ab78c7739151ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 44/65] fix: read XML documents without metadata

---
 lgr/parser/xml_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 38d9ff6..3288655 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -142,6 +142,9 @@ class XMLParser(LGRParser):
                                   tag=META_TAG,
                                   **self.PARSER_OPTIONS)
         self._fast_iter(context)
+        if self._lgr is None:
+            # The optional "meta" element is not present
+            self._process_meta({})
         unicode_version = self._lgr.metadata.unicode_version
         self._lgr = None
 
@@ -494,7 +497,7 @@ class XMLParser(LGRParser):
         """
         metadata_added = False
         for _, elem in context:
-            if not metadata_added and elem == DATA_TAG:
+            if not metadata_added and elem.tag == DATA_TAG:
                 # The optional "meta" element is not present since it must
                 # preceed the required data element.
                 # However, we still have to call _process_meta
@@ -503,6 +506,7 @@ class XMLParser(LGRParser):
             if elem.tag == META_TAG:
                 logger.debug("Got 'meta' element")
                 self._process_meta(elem)
+                metadata_added = True
             elif elem.tag == DATA_TAG:
                 logger.debug("Got 'data' element")
                 self._process_data(elem)
-- 
2.43.0


From ca6b3435bcf997ea1618980f73808946c76eccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 45/65] fix: read XML documents with an empty description

---
 lgr/parser/xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 3288655..c327a63 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -204,7 +204,7 @@ class XMLParser(LGRParser):
             elif tag == DESCRIPTION_TAG:
                 # Seems to be an issue with CDATA/iterparse: https://bugs.launchpad.net/lxml/+bug/1788449
                 # For now, manually replace CRLF with LF
-                metadata.description = Description(child.text.replace('\r\n', '\n'),
+                metadata.description = Description((child.text or '').replace('\r\n', '\n'),
                                                    child.get('type', None))
             elif tag == REFERENCES_TAG:
                 for reference in child:
-- 
2.43.0


From cdda9841d1fe0e3999e34b6f131e12302100dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 46/65] fix: read lists in XML attributes whatever the white
 space between their words

---
 lgr/parser/xml_parser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index c327a63..82d9fcf 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -563,12 +563,7 @@ def string_to_list(string):
     >>> string_to_list("one two") == ["one", "two"]
     True
     """
-    # This is because(''.split('') -> [''])
-    result = []
-    if len(string) > 0:
-        result = string.split(' ')
-
-    return result
+    return string.split()
 
 
 def drop_ns(node):
-- 
2.43.0


From 14f5c248f190f89193d6299290cf745a1b483282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 47/65] fix: skip the variants of lines whose code point is
 invalid

---
 lgr/parser/rfc3743_parser.py | 2 ++
 lgr/parser/rfc4290_parser.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index d295f09..feb9673 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -100,6 +100,8 @@ class RFC3743Parser(LGRParser):
                 self._lgr.add_cp(codepoints, ref=references, force=self.force)
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char, line_num)
+                # No code point, hence nothing to attach variants to
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index b2a1fc5..693e94d 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -61,6 +61,8 @@ class RFC4290Parser(LGRParser):
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char,
                              line_num)
+                # No code point, hence nothing to attach variants to
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
-- 
2.43.0


From b694471827d86b7242c995c559840c824561805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 48/65] fix: ignore the comment at the end of lines in one code
 point per line files

---
 lgr/parser/line_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/line_parser.py b/lgr/parser/line_parser.py
index cf4f15a..7255e52 100644
--- a/lgr/parser/line_parser.py
+++ b/lgr/parser/line_parser.py
@@ -44,7 +44,7 @@ class LineParser(LGRParser):
                 continue
 
             codepoints = []
-            for cp in UNICODE_CODEPOINT_RE.finditer(line):
+            for cp in UNICODE_CODEPOINT_RE.finditer(line.split('#', 1)[0]):
                 try:
                     codepoints.append(int(cp.group(1), 16))
                 except ValueError:
-- 
2.43.0


From 0a8f788ad3d9470842defaba7305093e4326cbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 49/65] fix: accept white space after code points in RFC 3743
 tables

---
 lgr/parser/rfc3743_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index feb9673..da92518 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -170,7 +170,7 @@ def parse_char(char):
     """
     codepoints = []
     for match in UNICODE_CODEPOINT_RE.finditer(char):
-        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split(' ')]
+        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
         references = match.group('references')
 
         ref_list = []
-- 
2.43.0


From 484563e4f45fa8bb2e09e312f5a38d2fce0add3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:54 +0000
Subject: [PATCH 50/65] fix: accept reference and version numbers of several
 digits in RFC 3743 tables

---
 lgr/parser/rfc3743_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index da92518..d50e1c2 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -15,13 +15,13 @@ from lgr.utils import format_cp
 
 logger = logging.getLogger(__name__)
 
-REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
-VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
+REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d+)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
+VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
 
 # RFC3743 defines a code point without the "U+" notation,
 # however some files use the "U+" prefix.
 # Try to support both.
-UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d(,\d)*)\))?')
+UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d+(,\d+)*)\))?')
 
 
 class RFC3743Parser(LGRParser):
-- 
2.43.0


From bffa2396dce1ecff8a6136ced098f5156aa917f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 51/65] fix: reset the patterns of rules when the definitions
 they use change

---
 lgr/core.py | 15 +++++++++++++++
 lgr/rule.py | 28 +++++++++++++++++++++++-----
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index ebf87ec..5d838d9 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -237,6 +237,7 @@ class LGR(object):
         """
         self.repertoire.del_tag(tag_id)
         self.classes_lookup.pop(TAG_CLASSNAME_PREFIX + tag_id, None)
+        self._reset_rule_patterns()
 
     def add_cp(self, cp_or_sequence,
                comment=None, ref=None,
@@ -994,6 +995,8 @@ class LGR(object):
             if not force:
                 raise exc
 
+        if rule.name in self.rules_lookup:
+            self._reset_rule_patterns()
         self.rules_lookup[rule.name] = rule
         self.rules.append(rule.name)
 
@@ -1025,9 +1028,17 @@ class LGR(object):
             logger.log(level, "Invalid rule '%s'", cls)
             if not force:
                 raise exc
+        if cls.name in self.classes_lookup:
+            self._reset_rule_patterns()
         self.classes_lookup[cls.name] = cls
         self.classes.append(cls.name)
 
+    def _reset_rule_patterns(self):
+        """
+        Reset the patterns calculated by the rules, as a definition they may use has changed.
+        """
+        for rule in self.rules_lookup.values():
+            rule.reset_patterns()
 
     # TODO get rid of generate_chars and always return them
     def test_label_eligible(self, label, is_variant=False, collect_log=True, generate_chars=False):
@@ -2134,6 +2145,8 @@ class LGR(object):
                                            Class(name=tag,
                                                  comment="Virtual class for tag %s" % tag,
                                                  implicit=True)).add_codepoint(cp_or_sequence)
+        if tags:
+            self._reset_rule_patterns()
 
     def _del_cp_from_tag_classes(self, cp_or_sequence, tags):
         """
@@ -2153,6 +2166,8 @@ class LGR(object):
                         if tag in char.tags for c in char.cp}
                 self.classes_lookup[tag_classname].del_codepoint(
                     [c for c in cp_or_sequence if c not in kept])
+        if tags:
+            self._reset_rule_patterns()
 
     def __unicode__(self):
         return self.name
diff --git a/lgr/rule.py b/lgr/rule.py
index 5cdd3b0..91292e2 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -39,12 +39,26 @@ class Rule(object):
         self.references = ref or []
         self.by_ref = by_ref
         self.children = []
-        self._pattern_cache = {}
+        self.reset_patterns()
 
         if name is not None and by_ref is not None:
             logger.error("Cannot create a rule with both a 'name' and a 'by-ref'")
             raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
 
+    def __getstate__(self):
+        """
+        Called when copying or pickling a rule: patterns depend on the objects they were calculated with.
+        """
+        odict = self.__dict__.copy()
+        odict['_pattern_cache'] = {}
+        return odict
+
+    def reset_patterns(self):
+        """
+        Forget the calculated patterns, to be called when a definition used by the rule may have changed.
+        """
+        self._pattern_cache = {}
+
     def iter_children(self):
         """
         Returns an iterator of any child element of this matcher, which could be none.
@@ -60,6 +74,7 @@ class Rule(object):
             logger.error("Cannot add child to a 'by-ref' rule")
             raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
         self.children.append(child)
+        self.reset_patterns()
 
     def get_pattern(self, rules_lookup, classes_lookup, unicode_database,
                     is_look_behind=False):
@@ -74,10 +89,11 @@ class Rule(object):
         :param is_look_behind: True if rule is used in a look-behind element.
         :return: String to be compiled to a regex.
         """
+        # Only named rules are cached: these are known to the LGR, which resets them when needed
         cache_key = (id(rules_lookup), id(classes_lookup), id(unicode_database), is_look_behind)
         if cache_key in self._pattern_cache:
-            return self._pattern_cache[cache_key]
-        
+            return self._pattern_cache[cache_key][0]
+
         if self.by_ref is not None:
             if self.by_ref not in rules_lookup:
                 logger.error("Rule cannot reference inexisting rule '%s'",
@@ -98,9 +114,11 @@ class Rule(object):
                                            unicode_database,
                                            is_look_behind))
 
-        self._pattern_cache[cache_key] = pattern_io.getvalue()
+        if self.name is not None:
+            # Keep the objects along with the pattern, so that their ids cannot be reused
+            self._pattern_cache[cache_key] = (pattern_io.getvalue(), rules_lookup, classes_lookup, unicode_database)
         return pattern_io.getvalue()
-    
+
     def precalculate_patterns(self, rules_lookup, classes_lookup, unicode_database):
         """
         Precalculate patterns for this rule and all its children.
-- 
2.43.0


From 51797887e6f8f0c31aa480ff0c319ab22b941cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 52/65] fix: skip the script check without a Unicode database

---
 lgr/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 5d838d9..797ca8b 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -2064,7 +2064,7 @@ class LGR(object):
         Given a code point or code point sequence, return if the code point is in
         one of the LGR's scripts and the code point script.
 
-        Assume the LGR has a proper unicode_database set.
+        The check is skipped if the LGR has no unicode_database set.
 
         :param codepoints: List of code points.
         :return: (in_script, cp_script) with:
@@ -2073,6 +2073,8 @@ class LGR(object):
         """
         in_script = True
         cp_scripts = set()
+        if self.unicode_database is None:
+            return in_script, cp_scripts
         lgr_scripts = self.metadata.get_scripts()
         for cp in codepoints:
             try:
-- 
2.43.0


From 253ab2d66c387d2c874647bfebc53d3849bf95d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 53/65] fix: variant sets in the review of IDN tables

A missing reverse variant was reported as an exact match, a variant with
another kind of condition as a missing condition, sets of non symmetric
tables that overlap were lost, a variant sequence out of the repertoire of
the reference failed, and additional code points contained those of variant
sets and only the first code point of ranges.
---
 lgr/tools/idn_review/variant_sets.py | 48 ++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 42a9c05..fc04d5f 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -12,6 +12,7 @@ from lgr.char import Char, Variant, Repertoire
 from lgr.core import LGR
 from lgr.exceptions import NotInLGR, VariantAlreadyExists
 from lgr.tools.idn_review.utils import IdnReviewResult, cp_report
+from lgr.utils import cp_to_ulabel
 from lgr.validate import check_symmetry, check_transitivity
 
 logger = logging.getLogger(__name__)
@@ -203,7 +204,7 @@ class VariantComparison:
             return self.IdnRuleCheck.DIFFERENT
         if (idn_wle['when'] or idn_wle['not-when']) and not ref_wle['when'] and not ref_wle['not-when']:
             return self.IdnRuleCheck.LESS_CONSERVATIVE
-        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when']) or ref_wle['not-when']:
+        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when'] or ref_wle['not-when']):
             return self.IdnRuleCheck.MISSING
         return self.IdnRuleCheck.DIFFERENT
 
@@ -312,12 +313,21 @@ class VariantReport:
         if self.reference_lgr_variant_set_missing:
             return IdnReviewResult.MANUAL_CHECK.name, "Variant set only exists in the IDN Table"
 
-        if not self.idn_table_var_data.has_variant():
+        idn_has_variant = self.idn_table_var_data.has_variant()
+        ref_has_variant = self.reference_lgr_var_data.has_variant()
+        if direction == VariantComparison.Direction.REVERSE and idn_has_variant and ref_has_variant:
+            # the reverse mapping may be missing from one of the tables
+            idn_has_reverse = self.idn_table_var_data.has_reverse()
+            ref_has_reverse = self.reference_lgr_var_data.has_reverse()
+            if idn_has_reverse or ref_has_reverse:
+                idn_has_variant, ref_has_variant = idn_has_reverse, ref_has_reverse
+
+        if not idn_has_variant:
             if in_idn_repertoire:
                 return IdnReviewResult.REVIEW.name, "Variant member exists in the reference LGR"
             return IdnReviewResult.NOTE.name, "Not applicable"
 
-        if not self.reference_lgr_var_data.has_variant():
+        if not ref_has_variant:
             return IdnReviewResult.MANUAL_CHECK.name, "Variant member exists in IDN Table but not in the reference LGR"
 
         rules_check = self.variant_compare.check_rules(direction)
@@ -380,7 +390,8 @@ class VariantSetsReport:
                             idn_cp = (c,)
                             if idn_cp in self.idn_repertoire:
                                 relevant_repertoire.add(idn_cp)
-                        missing_sequence = self.reference_lgr_repertoire.get_char(cp)
+                        # a variant is not necessarily in the repertoire of the reference LGR
+                        missing_sequence = cp_to_ulabel(cp)
                         break
 
         for cp in sorted(set(self.idn_table_variant_set) | set(self.reference_lgr_variant_set)):
@@ -472,14 +483,33 @@ def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr)
     Get code points from IDN table not in reference LGR that are not handled in the report (i.e. not in a variant set)
     """
     unidb = idn_table.unicode_database
-    variants_flat = set(zip(*[v for v in idn_table_variant_sets.values()]))
-    return cp_report(unidb, [char for char in idn_table.repertoire if
-                      char.cp not in variants_flat and char not in reference_lgr.repertoire])
+    variants_flat = {cp for variant_set in idn_table_variant_sets.values() for cp in variant_set}
+    return cp_report(unidb, [char for char in sorted(idn_table.repertoire.all_repertoire(), key=lambda x: x.cp) if
+                             char.cp not in variants_flat and char not in reference_lgr.repertoire])
+
+
+def get_variant_sets(lgr: LGR) -> Dict[Tuple, Tuple]:
+    """
+    Get the variant sets of the LGR, indexed by their lowest member.
+
+    The sets of an LGR that is not symmetric may overlap: these are gathered, such that none is lost.
+    """
+    variant_sets = []
+    for variant_set in lgr.repertoire.get_variant_sets(force=True):
+        members = set(variant_set)
+        separate_sets = []
+        for other_set in variant_sets:
+            if members & other_set:
+                members |= other_set
+            else:
+                separate_sets.append(other_set)
+        variant_sets = separate_sets + [members]
+    return {min(s): tuple(sorted(s)) for s in variant_sets}
 
 
 def generate_variant_sets_report(idn_table: LGR, reference_lgr: LGR) -> Dict:
-    idn_table_variant_sets = {s[0]: s for s in idn_table.repertoire.get_variant_sets(force=True)}
-    reference_lgr_variant_sets = {s[0]: s for s in reference_lgr.repertoire.get_variant_sets(force=True)}
+    idn_table_variant_sets = get_variant_sets(idn_table)
+    reference_lgr_variant_sets = get_variant_sets(reference_lgr)
 
     # if some variant sets from IDN table or Ref. LGR are included respectively in Ref. LGR or IDN table but does not
     # have the same index, try to update the indexes to make them match
-- 
2.43.0


From fda70700afbd48c6150858c829ff95446d1b0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 54/65] fix: take all code points of ranges into account when
 reviewing rules

Also labels that end with a sequence of the table are in its repertoire.
---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 455f5a7..421c6b9 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -275,7 +275,7 @@ class WholeLabelEvaluationRuleReport:
         self.reference_lgr_rule = reference_lgr_rule
         self.idn_table_context = idn_table_context
         self.reference_lgr_context = reference_lgr_context
-        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire)
+        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire.all_repertoire())
 
     def compare_wle(self) -> Tuple[IdnReviewResult, str]:
         # compare rule regex for rule equality
@@ -366,7 +366,7 @@ class WholeLabelEvaluationRulesCheck:
         self.has_multiple_digits_sets = nbr_digits > 10
 
         if self.reference_lgr:
-            for char in self.reference_lgr.repertoire:
+            for char in self.reference_lgr.repertoire.all_repertoire():
                 if char.when:
                     self.reference_lgr_context_rules.setdefault(char.when, set()).add(char.cp)
                 if char.not_when:
@@ -412,6 +412,8 @@ class WholeLabelEvaluationRulesCheck:
             if isinstance(char, CharSequence):
                 if not char.is_prefix_of(label):
                     continue
+                elif len(label) == len(char):
+                    return True
                 else:
                     result |= self.check_label_cp_in_repertoire(label[len(char):])
             elif len(label) > 1:
-- 
2.43.0


From 08f2997ef0181fd73c99b23c6db5d752800e8adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 55/65] fix: different rules had the same text

Literal sequences were sorted, and a class of several code points looked like
a sequence, so that the review of IDN tables found an exact match.
---
 lgr/classes.py | 2 +-
 lgr/matcher.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 722fb23..ad3f73a 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -217,7 +217,7 @@ class Class(object):
             name, value = self.unicode_property.split(':')
             return '[:class property:{}={}:]'.format(name, value)
 
-        return format_cp_collapsed(self.codepoints)
+        return '[{}]'.format(format_cp_collapsed(self.codepoints))
 
     def __repr__(self):
         return '<Class %s>' % (self.name or self.from_tag or self.by_ref)
diff --git a/lgr/matcher.py b/lgr/matcher.py
index 686355e..32470c3 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -7,7 +7,7 @@ from __future__ import unicode_literals
 import logging
 
 from lgr.exceptions import LGRFormatException
-from lgr.utils import format_cp_collapsed
+from lgr.utils import format_cp
 from lgr.core import PROTOCOL_LABEL_MAX_LENGTH
 
 logger = logging.getLogger(__name__)
@@ -370,9 +370,9 @@ class CharMatcher(CountMatcher):
     def __str__(self):
         count = CountMatcher.get_pattern(self)
         if len(count) > 1:
-            return '({}){}'.format(format_cp_collapsed(self.cp_or_sequence), count)
+            return '({}){}'.format(format_cp(self.cp_or_sequence), count)
 
-        return format_cp_collapsed(self.cp_or_sequence)
+        return format_cp(self.cp_or_sequence)
 
     def __repr__(self):
         count = super(CharMatcher, self).get_pattern()
-- 
2.43.0


From 79c1caa4f30447b0e4bd1696d214ffc124325cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 56/65] fix: other scripts of labels with sequences when hiding
 mixed-script variants

---
 lgr/mixed_scripts_variant_filter.py | 35 ++++++++++++-----------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index 0ac3bfc..a2b4013 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -99,32 +99,25 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         :param repertoire: The LGR repertoire
         :return: A set of scripts to keep for computation when filtering cross-script variants.
         """
-        scripts = None
-        current_label = label
-
-        for c in label:
-            scripts_for_char = set()
+        # Scripts that can be used up to a position of the label, over all the partitions of the label in characters
+        scripts = {}
+        for position, c in enumerate(label):
+            if position and position not in scripts:
+                # inside a sequence
+                continue
             try:
-                chars_from_prefix = repertoire.get_chars_from_prefix(c, only_variants=True)
+                chars_from_prefix = repertoire.get_chars_from_prefix(c)
             except NotInLGR:
-                # may be a code point from a sequence
                 continue
             for char in chars_from_prefix:
                 # Ensure prefix is valid for label
-                if not char.is_prefix_of(current_label):
+                if not char.is_prefix_of(label[position:]):
                     continue
 
-                for v in char.get_variants():
-                    for cp in v.cp:
-                        scripts_for_char.add(self.unidb.get_script(cp))
-
-            scripts_for_char -= self.IGNORED_SCRIPTS
-            if scripts is None:
-                scripts = set(scripts_for_char)
-            else:
-                scripts.intersection_update(scripts_for_char)
-            current_label = current_label[1:]
+                scripts_for_char = {self.unidb.get_script(cp) for v in char.get_variants() for cp in v.cp}
+                scripts_for_char -= self.IGNORED_SCRIPTS
+                if position:
+                    scripts_for_char &= scripts[position]
+                scripts.setdefault(position + len(char), set()).update(scripts_for_char)
 
-        if scripts is None:
-            return set()
-        return scripts - self.base_scripts
+        return scripts.get(len(label), set()) - self.base_scripts
-- 
2.43.0


From cda2b2f0e35afca1bfddfd05483feef480df7578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 57/65] fix: renaming a rule or class in a union or
 intersection corrupted its text

---
 lgr/tools/compare/intersect.py | 10 +++++-----
 lgr/tools/compare/union.py     | 10 +++++-----
 lgr/tools/compare/utils.py     | 15 +++++++++++++++
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index fcf2e13..c75fc25 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,7 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, rename_element
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -199,8 +199,8 @@ def intersect_rules(lgr1, lgr2):
             rules.append(rule_name)
             continue
 
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
+        rule_1 = rename_element(rule_1, rule_name, rule_name + '_1')
+        rule_2 = rename_element(rule_2, rule_name, rule_name + '_2')
 
         rules_xml.append(rule_1)
         rules_xml.append(rule_2)
@@ -236,8 +236,8 @@ def intersect_classes(lgr1, lgr2):
             classes.append(class_name)
             continue
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
+        class_1 = rename_element(class_1, class_name, class_name + '_1')
+        class_2 = rename_element(class_2, class_name, class_name + '_2')
 
         classes_xml.append(class_1)
         classes_xml.append(class_2)
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 7207138..60779b1 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, rename_element
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -212,8 +212,8 @@ def union_rules(lgr1, lgr2):
             rules.append(rule_name)
             continue
 
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
+        rule_1 = rename_element(rule_1, rule_name, rule_name + '_1')
+        rule_2 = rename_element(rule_2, rule_name, rule_name + '_2')
 
         rules_xml.append(rule_1)
         rules_xml.append(rule_2)
@@ -263,8 +263,8 @@ def union_classes(lgr1, lgr2):
             classes.append(class_name)
             continue
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
+        class_1 = rename_element(class_1, class_name, class_name + '_1')
+        class_2 = rename_element(class_2, class_name, class_name + '_2')
 
         classes_xml.append(class_1)
         classes_xml.append(class_2)
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index ded6670..2551dbb 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -24,6 +24,21 @@ def display_variant(variant):
         variant.comment)
 
 
+def rename_element(xml, name, new_name):
+    """
+    Rename a named rule or class.
+
+    :param xml: The XML text of the rule or class.
+    :param name: Its name.
+    :param new_name: Its new name.
+    :return: The XML text with the new name.
+
+    >>> rename_element('<rule name="start"><start/></rule>', 'start', 'start_1')
+    '<rule name="start_1"><start/></rule>'
+    """
+    return xml.replace(' name="{}"'.format(name), ' name="{}"'.format(new_name))
+
+
 def compare_objects(first, second, cmp_fct):
     """
     Compare two objects, possibly None.
-- 
2.43.0


From 6fc24fc8e9a13006fd5bcd86c6d77afbbed62113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 58/65] fix: the latest Unicode version was taken by its text
 in unions, intersections and merged sets

---
 lgr/tools/compare/intersect.py |  4 ++--
 lgr/tools/compare/union.py     |  4 ++--
 lgr/tools/compare/utils.py     | 17 +++++++++++++++++
 lgr/tools/merge_set.py         |  7 +++++--
 4 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index c75fc25..32823cc 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -8,7 +8,7 @@ import copy
 import logging
 from datetime import date
 
-from lgr.tools.compare.utils import compare_objects, rename_element
+from lgr.tools.compare.utils import compare_objects, latest_version, rename_element
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -99,7 +99,7 @@ def intersect_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_version)
 
     return output
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 60779b1..9665f67 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -9,7 +9,7 @@ import logging
 from datetime import date
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects, rename_element
+from lgr.tools.compare.utils import compare_objects, latest_version, rename_element
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
@@ -106,7 +106,7 @@ def union_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             latest_version)
 
     return output
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 2551dbb..aecd4c4 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -2,6 +2,7 @@
 """
 utils.py - Definition of utility functions.
 """
+import re
 from collections import namedtuple
 
 from lgr.utils import format_cp
@@ -66,3 +67,19 @@ def compare_objects(first, second, cmp_fct):
         return first
 
     return cmp_fct(first, second)
+
+
+def latest_version(first, second):
+    """
+    Get the latest of two versions.
+
+    :param first: First version, made of numbers separated by dots.
+    :param second: Other version.
+    :return: The latest one.
+
+    >>> latest_version('6.3.0', '11.0.0')
+    '11.0.0'
+    >>> latest_version('6.3.0', '6.2.0')
+    '6.3.0'
+    """
+    return max(first, second, key=lambda version: [int(number) for number in re.findall('[0-9]+', version)])
diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 2f079c9..b444e1c 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -23,7 +23,7 @@ from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.char import Variant
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, latest_version
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -109,6 +109,9 @@ def merge_metadata(lgr_set):
     output.version = merge_version(lgr_set)
     output.description = merge_description(lgr_set)
 
+    # the default version of the output is not the one of a LGR in the set
+    output.unicode_version = None
+
     scopes = OrderedDict()
     languages = OrderedDict()
     for metadata in [lgr.metadata for lgr in lgr_set]:
@@ -123,7 +126,7 @@ def merge_metadata(lgr_set):
 
         output.unicode_version = compare_objects(output.unicode_version,
                                                  metadata.unicode_version,
-                                                 max)
+                                                 latest_version)
 
     output.scopes = list(scopes.keys())
     output.languages = list(languages.keys())
-- 
2.43.0


From 1f2fcefbf3d7a32bf5bbbb6a6d063ee3113fb606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:47 +0000
Subject: [PATCH 59/65] fix: entries and variants shared their lists of tags
 and references with the caller

---
 lgr/char.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index a0b6926..f9c4b3a 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -65,7 +65,7 @@ class Variant(object):
         self.when = when
         self.not_when = not_when
         self.comment = comment
-        self.references = ref if ref is not None else []
+        self.references = list(ref) if ref is not None else []
 
     def __unicode__(self):
         return cp_to_ulabel(self.cp)
@@ -99,8 +99,8 @@ class CharBase(object):
         assert len(cp_or_sequence), "there should be at least one char"
         self.cp = tuple(cp_or_sequence)
         self.comment = comment
-        self.references = ref if ref is not None else []
-        self.tags = tag if tag is not None else []
+        self.references = list(ref) if ref is not None else []
+        self.tags = list(tag) if tag is not None else []
         self.when = when
         self.not_when = not_when
         self._variants = {}
-- 
2.43.0


From b9451be6ad72f5f8b6e71f09d3b55d47a4846f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:22 +0000
Subject: [PATCH 60/65] fix: Han labels with kana starting with a Common or
 Inherited character were not Japanese

---
 lgr/tools/utils.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 2473c9a..fd97be0 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -289,15 +289,7 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
 
     script = unidb.get_script(label[0], alpha4=True)
 
-    if script == 'Hani':
-        script = 'Hani'
-        # We keep looking on the other characters to determine if the script can be Jpan.
-        for character in label[1:]:
-            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
-                script = 'Jpan'
-                break
-
-    elif script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
+    if script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
         # Since the first character is from the Common or Inherited
         # scripts, we keep looking to see if the rest match another one.
         for character in label[1:]:
@@ -311,6 +303,13 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
             # of Jpan.
             script = 'Jpan'
 
+    if script == 'Hani':
+        # We keep looking on the other characters to determine if the script can be Jpan.
+        for character in label[1:]:
+            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
+                script = 'Jpan'
+                break
+
     if script in ['Hira', 'Kana']:
         script = 'Jpan'
     elif script == 'Hang':
-- 
2.43.0


From a8fa60db4f37c8cdde6052e1eed0f7be2067aba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:01 +0000
Subject: [PATCH 61/65] fix: IDN review compares every conditional variant of a
 mapping

The rules and types of several variants to the same target were those of an
arbitrary one, so that different sets of variants could be an exact match.
---
 lgr/tools/idn_review/variant_sets.py | 56 ++++++++++++----------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index fc04d5f..4ebf1c3 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -67,52 +67,28 @@ class VariantData:
         return ' - '.join(sorted(c.type for c in self._rev if c.type is not None))
 
     def get_when(self) -> str:
-        for v in self.get_vars():
-            if v.when:
-                return v.when
-        return None
+        return self._get_rules(self._fwd, 'when')
 
     def get_not_when(self) -> str:
-        for v in self.get_vars():
-            if v.not_when:
-                return v.not_when
-        return None
+        return self._get_rules(self._fwd, 'not_when')
 
     def get_rev_when(self) -> str:
-        for v in self.get_rev_vars():
-            if v.when:
-                return v.when
-        return None
+        return self._get_rules(self._rev, 'when')
 
     def get_rev_not_when(self) -> str:
-        for v in self.get_rev_vars():
-            if v.not_when:
-                return v.not_when
-        return None
+        return self._get_rules(self._rev, 'not_when')
 
     def get_when_type(self) -> str:
-        for v in self.get_vars():
-            if v.when:
-                return v.type
-        return ''
+        return self._get_rules_type(self._fwd, 'when')
 
     def get_not_when_type(self) -> str:
-        for v in self.get_vars():
-            if v.not_when:
-                return v.type
-        return ''
+        return self._get_rules_type(self._fwd, 'not_when')
 
     def get_rev_when_type(self) -> str:
-        for v in self.get_rev_vars():
-            if v.when:
-                return v.type
-        return ''
+        return self._get_rules_type(self._rev, 'when')
 
     def get_rev_not_when_type(self) -> str:
-        for v in self.get_rev_vars():
-            if v.not_when:
-                return v.type
-        return ''
+        return self._get_rules_type(self._rev, 'not_when')
 
     def get_non_conditional_type(self) -> str:
         for v in self.get_vars():
@@ -126,6 +102,22 @@ class VariantData:
                 return v.type
         return ''
 
+    @staticmethod
+    def _get_rules(variants: List[Variant], attr: str) -> str:
+        # there may be several variants, each with its own rule
+        return ' - '.join(sorted(getattr(v, attr) for v in variants if getattr(v, attr))) or None
+
+    @staticmethod
+    def _get_rules_type(variants: List[Variant], attr: str) -> str:
+        # types are in the order of the rules, a type common to all the rules is given once
+        with_rule = sorted((v for v in variants if getattr(v, attr)), key=lambda v: getattr(v, attr))
+        types = [v.type for v in with_rule]
+        if not types:
+            return ''
+        if len(set(types)) == 1:
+            return types[0]
+        return ' - '.join(t or '' for t in types)
+
     @classmethod
     def none(cls):
         return cls(False)
-- 
2.43.0


From 6ac28b5c37dc5a062089997c4cd4fbcd7585b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 62/65] fix: accept every form of code point when looking up or
 deleting a variant

---
 lgr/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 797ca8b..d99e9e4 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -782,6 +782,7 @@ class LGR(object):
                      variant_cp, cp_or_sequence, self)
 
         cp_or_sequence = self._check_convert_cp(cp_or_sequence)
+        variant_cp = self._check_convert_cp(variant_cp)
 
         return self.repertoire.del_variant(cp_or_sequence, variant_cp,
                                            when, not_when)
@@ -840,6 +841,7 @@ class LGR(object):
                      cp_or_sequence, self)
 
         cp_or_sequence = self._check_convert_cp(cp_or_sequence)
+        var_cp = tuple(self._check_convert_cp(var_cp))
         return self.repertoire.get_variant(cp_or_sequence, var_cp)
 
     def get_char(self, cp_or_sequence):
-- 
2.43.0


From 3b05d0339758d42b882dbf83f4cacfb2d0a5d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:25 +0000
Subject: [PATCH 63/65] fix: do not report a label as colliding with its own
 cached index

---
 lgr/tools/diff_collisions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index f1238f3..2d642df 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -91,7 +91,8 @@ def _generate_indexes(lgr, labels: List, tlds=None, keep=False, quiet=False, cac
 
     _get_indexes(labels)
     if cached_indexes:
-        _get_indexes(cached_indexes, is_cache=True)
+        # labels in the list are not taken again from the cache, they would collide with themselves
+        _get_indexes({label: index for label, index in cached_indexes.items() if label not in labels}, is_cache=True)
     if tlds:
         # remove labels from tlds as we do not want duplicated in label_indexes lists
         _get_indexes(tlds - set(labels), is_tld=True)
-- 
2.43.0


From dd0222bced4d492568243baf0ca77266d7460ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:16 +0000
Subject: [PATCH 64/65] fix: report collisions when no TLDs are given

---
 lgr/tools/diff_collisions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 2d642df..4552056 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -543,9 +543,11 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
         else:
             label_errors.append("{}: {}".format(label, error))
 
-    tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
-    for err in errors:
-        yield err
+    tlds = set()
+    if tlds_input:
+        tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
+        for err in errors:
+            yield err
 
     yield "# Collisions #\n\n"
     has_one = False
-- 
2.43.0


From 73f4324afe4960eb8fa78dbad4e8b91b8c34ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:49 +0000
Subject: [PATCH 65/65] fix: references that are not all integers have no order
 to check

---
 lgr/validate/miscellaneous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 8aab903..70734f6 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -74,11 +74,11 @@ def check_lgr_data(lgr):
     return success
 
 def check_ref_ascending(lgr, reflist):
+    if not all(re.match(r'\d+$', n) for n in reflist):
+        # Not clear how to order references that are not integers
+        return True
     last = -1
     for n in reflist:
-        if not re.match(r'\d+$', n):
-            # Not clear how to order references that are not integers
-            break
         if not int(n) > last:
             lgr.notify_error('ref_attribute_ascending')
             logging.warning("references not in ascending order: %d --> %d", last, int(n))
-- 
2.43.0

