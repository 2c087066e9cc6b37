From 698fd82c93f40d62bd2334895d1ae923904238fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 01/64] fix: an empty character class matches nothing instead
 of the empty string

---
 lgr/classes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index f054701..6c6f9c2 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -17,6 +17,9 @@ logger = logging.getLogger(__name__)
 # So use this char to avoid any collision.
 TAG_CLASSNAME_PREFIX = "#__internal_tag_"
 
+# Regular expression which never matches, used for the empty set
+EMPTY_SET_PATTERN = '(?!)'
+
 
 def set_to_rvalue(cp_set, as_set):
     """
@@ -24,7 +27,7 @@ def set_to_rvalue(cp_set, as_set):
 
     If `cp_set` is empty and `as_set` is False, then the rvalue is a text
     pattern to be used in regex. As the set is empty, '[]' is not a valid
-    regex, so take care of this case here.
+    regex, so take care of this case here: use a pattern that never matches.
 
     :param cp_set: Code point set.
     :param as_set: If True, rvalue is a set, unicode string otherwise.
@@ -34,9 +37,10 @@ def set_to_rvalue(cp_set, as_set):
         return cp_set
     else:
         if len(cp_set) == 0:
-            # Empty set, we have to return empty string
-            # because '[]' is an invalid REGEX
-            return ''
+            # Empty set: no code point is in it, so the pattern must never
+            # match (an empty pattern would match the empty string).
+            # '[]' cannot be used because it is an invalid REGEX
+            return EMPTY_SET_PATTERN
         else:
             return text_type(cp_set)
 
-- 
2.43.0


From 04f1f36730cf3b6918420638cb623580fcab3536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 02/64] fix: evaluate variant context rules of the index label
 against the actual rest of the label

---
 lgr/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 634826d..2fe9c9a 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1357,10 +1357,12 @@ class LGR(object):
         logger.debug("Computing index label for partition: %s", chars)
         index_label = []
         prefix = tuple()
-        suffix = tuple(c for cp in chars[1:] for c in cp.cp)
+        suffix = tuple(c for cp in chars for c in cp.cp)
         idx = 0
         for char in chars:
             logger.debug('Char CP: %s', format_cp(char.cp))
+            # What follows the char in the label
+            suffix = suffix[len(char):]
             # Index: smallest id of the char and its variants
             ids = [list(char.cp)]
             for var in char.get_variants():
@@ -1376,7 +1378,6 @@ class LGR(object):
             logger.debug('List of variant ids: %s', ids)
             index_label.extend(list(min(ids)))
             prefix += char.cp
-            suffix = suffix[len(char):]
             idx += len(char)
 
         logger.debug("Index label: '%s'", index_label)
-- 
2.43.0


From d6aebf27db7631b9d3b0408a6091e0fad8a3e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:44 +0000
Subject: [PATCH 03/64] fix: rules do not use patterns cached before tags,
 classes or rules were modified

---
 lgr/core.py    | 18 +++++++++++++++++-
 lgr/matcher.py | 10 ++++++++++
 lgr/rule.py    | 11 +++++++++++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index 2fe9c9a..35e4545 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -237,6 +237,7 @@ class LGR(object):
         """
         self.repertoire.del_tag(tag_id)
         self.classes_lookup.pop(TAG_CLASSNAME_PREFIX + tag_id, None)
+        self._clear_pattern_caches()
 
     def add_cp(self, cp_or_sequence,
                comment=None, ref=None,
@@ -986,6 +987,7 @@ class LGR(object):
 
         self.rules_lookup[rule.name] = rule
         self.rules.append(rule.name)
+        self._clear_pattern_caches()
 
     def add_action(self, action, force=False):
         """
@@ -1017,7 +1019,7 @@ class LGR(object):
                 raise exc
         self.classes_lookup[cls.name] = cls
         self.classes.append(cls.name)
-
+        self._clear_pattern_caches()
 
     # TODO get rid of generate_chars and always return them
     def test_label_eligible(self, label, is_variant=False, collect_log=True, generate_chars=False):
@@ -2108,6 +2110,8 @@ class LGR(object):
                                            Class(name=tag,
                                                  comment="Virtual class for tag %s" % tag,
                                                  implicit=True)).add_codepoint(cp_or_sequence)
+        if tags:
+            self._clear_pattern_caches()
 
     def _del_cp_from_tag_classes(self, cp_or_sequence, tags):
         """
@@ -2123,6 +2127,18 @@ class LGR(object):
             tag_classname = TAG_CLASSNAME_PREFIX + tag
             if tag_classname in self.classes_lookup:
                 self.classes_lookup[tag_classname].del_codepoint(cp_or_sequence)
+        if tags:
+            self._clear_pattern_caches()
+
+    def _clear_pattern_caches(self):
+        """
+        Forget the patterns cached by the rules.
+
+        The patterns depend on the rules, classes and tags of the LGR, so they have to be
+        computed again when one of those is modified.
+        """
+        for rule in self.rules_lookup.values():
+            rule.clear_pattern_cache()
 
     def __unicode__(self):
         return self.name
diff --git a/lgr/matcher.py b/lgr/matcher.py
index 686355e..9e38db1 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -52,6 +52,13 @@ class Matcher(object):
         """
         logger.debug('Validate %s', self)
 
+    def clear_pattern_cache(self):
+        """
+        Forget the patterns cached by the rules this matcher contains.
+        """
+        for child in self.iter_children():
+            child.clear_pattern_cache()
+
     def iter_children(self):
         """
         Returns an iterator of any child element of this matcher, which could be none.
@@ -409,6 +416,9 @@ class RuleMatcher(CountMatcher):
                                           rules_lookup, classes_lookup)
         self._rule.validate(parents + [self], rules_lookup, classes_lookup)
 
+    def clear_pattern_cache(self):
+        self._rule.clear_pattern_cache()
+
     def __str__(self):
         count = CountMatcher.get_pattern(self)
         if len(count) > 1:
diff --git a/lgr/rule.py b/lgr/rule.py
index 12beed3..9f2208a 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -60,6 +60,17 @@ class Rule(object):
             logger.error("Cannot add child to a 'by-ref' rule")
             raise LGRFormatException(LGRFormatException.LGRFormatReason.BY_REF_AND_OTHER)
         self.children.append(child)
+        self._pattern_cache.clear()
+
+    def clear_pattern_cache(self):
+        """
+        Forget the cached patterns of this rule and of all its children.
+
+        To be called when the definitions a pattern depends on are modified.
+        """
+        self._pattern_cache.clear()
+        for child in self.children:
+            child.clear_pattern_cache()
 
     def get_pattern(self, rules_lookup, classes_lookup, unicode_database,
                     is_look_behind=False):
-- 
2.43.0


From 04608fafb98299b38bd51e364b6b455f732e9bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 04/64] fix: context rules may contain a class with the percent
 sign

---
 lgr/rule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lgr/rule.py b/lgr/rule.py
index 9f2208a..2c8359c 100644
--- a/lgr/rule.py
+++ b/lgr/rule.py
@@ -175,9 +175,10 @@ class Rule(object):
                 anchor = None
             else:
                 # Format anchor - Can be a sequence.
-                # Use old-style formatting, see note in matcher.AnchorMatcher
-                pattern = pattern % {'anchor': ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
-                                                           anchor))}
+                # Do not use string formatting: classes may contain '%' and '{',
+                # see note in matcher.AnchorMatcher
+                pattern = pattern.replace('%(anchor)s', ''.join(map(lambda c: '\\x{{{:X}}}'.format(c),
+                                                                    anchor)))
         rule_logger.debug("Pattern for rule %s: '%s'", self, pattern)
         try:
             regex = unicode_database.compile_regex(pattern)
-- 
2.43.0


From 7aa418b866c85f8fd679e6fb6f28cec300b48b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 05/64] fix: deleting a range removes its code points from the
 tag classes

---
 lgr/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 35e4545..68aa3e7 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -576,7 +576,10 @@ class LGR(object):
             logger.error('First code point of range is greater than last')
             raise LGRApiInvalidParameter('first_cp')
 
+        chars = [self.repertoire[cp] for cp in range(first_cp, last_cp + 1) if cp in self.repertoire]
         self.repertoire.del_range(first_cp, last_cp)
+        for char in chars:
+            self._del_cp_from_tag_classes(char.cp, char.tags)
 
     def expand_ranges(self):
         """
-- 
2.43.0


From 113b9e3fd56dc20897c3c11048f27222a80e19c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 06/64] fix: deleting a code point that belongs to a range
 splits the range

The range was left in Repertoire.ranges with a missing code point.
---
 lgr/char.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index ba94f83..719a2d4 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -540,11 +540,33 @@ class Repertoire(object):
         """
         assert len(cp_or_sequence), "there should be at least one char"
 
-        char = CharBase.from_cp_or_sequence(cp_or_sequence)
-        if not self._del_char(char):
-            logger.error("Code point '%s' does not exist",
-                         format_cp(cp_or_sequence))
-            raise NotInLGR(cp_or_sequence)
+        char = self.get_char(cp_or_sequence)
+        if isinstance(char, RangeChar):
+            self._split_range(char)
+        self._del_char(char)
+
+    def _split_range(self, char):
+        """
+        Split the range of a character, leaving this character outside of the resulting ranges.
+
+        :param char: The RangeChar object.
+        """
+        cp = char.cp[0]
+        self.ranges.remove((char.first_cp, char.last_cp))
+        for first_cp, last_cp in ((char.first_cp, cp - 1), (cp + 1, char.last_cp)):
+            if first_cp < last_cp:
+                for other_cp in range(first_cp, last_cp + 1):
+                    other = self[other_cp]
+                    other.first_cp = first_cp
+                    other.last_cp = last_cp
+                self.ranges.append((first_cp, last_cp))
+            elif first_cp == last_cp:
+                # Only one code point left, this is not a range anymore
+                other = self[first_cp]
+                self._del_char(other)
+                self.add_char(other.cp, comment=other.comment,
+                              ref=other.references, tag=other.tags,
+                              when=other.when, not_when=other.not_when)
 
     def add_range(self, first_cp, last_cp,
                   comment=None, ref=None,
-- 
2.43.0


From 5ca43bd6cf006aef0d49c0b3b4684808b8054754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 07/64] fix: a refused range insertion leaves the repertoire
 unchanged

Ranges enclosing an existing one were not seen as overlapping, and the
first code points of the range stayed in the repertoire on error.
---
 lgr/char.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lgr/char.py b/lgr/char.py
index 719a2d4..0424344 100644
--- a/lgr/char.py
+++ b/lgr/char.py
@@ -609,11 +609,16 @@ class Repertoire(object):
                          format_cp(first_cp), format_cp(last_cp))
             raise RangeAlreadyExists(first_cp, last_cp)
 
+        # Check before insertion so that nothing is inserted on error
+        for cp in range(first_cp, last_cp + 1):
+            if cp in self:
+                logger.error("Char '%s' already exists", format_cp(cp))
+                raise CharAlreadyExists((cp,))
+
         for cp in range(first_cp, last_cp + 1):
             char = RangeChar(cp, first_cp, last_cp,
                              comment=comment, ref=ref, tag=tag,
                              when=when, not_when=not_when)
-            # TODO: clean-up range on error.
             self._add_char(char)
 
         # Insert by first cp
@@ -896,8 +901,7 @@ class Repertoire(object):
             # From now on:
             #    * first_cp <= range_last
             #    * last_cp >= range_first
-            if first_cp >= range_first or last_cp <= range_last:
-                return True
+            return True
         return False
 
     def _add_char(self, char):
-- 
2.43.0


From 5a40ef1a52d6fd4bceac895d8c4ac26f44d4258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 08/64] fix: add_range does not fail half-way on overridden
 code points already present

With override_repertoire, or when IDNA validity is not enforced, the
presence of the code points was not checked before insertion.
---
 lgr/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 68aa3e7..711e9d2 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -474,6 +474,7 @@ class LGR(object):
                                        validating_repertoire)
         codepoints = []
         for (cp, status) in check_range:
+            overridden = False
             if status is None:
                 codepoints.append(cp)
             elif isinstance(status, NotInRepertoire):
@@ -485,11 +486,11 @@ class LGR(object):
                     logger.warning("Overriding repertoire '%s' "
                                    "for code point '%s'",
                                    validating_repertoire, format_cp(cp))
-                    codepoints.append(cp)
+                    overridden = True
             elif isinstance(status, CharInvalidIdnaProperty):
                 logger.error("CP '%s' is not IDNA valid", format_cp(cp))
                 if not self.raise_on_invalid_property:
-                    codepoints.append(cp)
+                    overridden = True
                 elif not force:
                     raise status
             elif isinstance(status, CharAlreadyExists):
@@ -502,6 +503,15 @@ class LGR(object):
                                 status.__class__.__name__, format_cp(cp))
                 raise LGRException()
 
+            if overridden:
+                # The presence of the code point has not been checked yet
+                if cp not in self.repertoire:
+                    codepoints.append(cp)
+                elif not force:
+                    logger.error("CP '%s' is already present in repertoire",
+                                 format_cp(cp))
+                    raise CharAlreadyExists((cp,))
+
         # References handling
         references = []
         for ref_id in ref if ref is not None else []:
-- 
2.43.0


From fd45b5b52c3f09fa3fc19c28d6433f6f0af07ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:04 +0000
Subject: [PATCH 09/64] fix: an empty list of code points collapses to no range

It raised IndexError, e.g. when forcing the insertion of a range whose
code points all exist, or when printing an empty class.
---
 lgr/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/utils.py b/lgr/utils.py
index 4893154..f419b21 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -126,6 +126,8 @@ def collapse_codepoints(codepoints):
     result = []
     # Sort list
     codepoints = sorted(codepoints)
+    if not codepoints:
+        return result
     first_cp = codepoints[0]
     last_cp = codepoints[0]
     for cp in codepoints[1:]:
-- 
2.43.0


From fe1ca39733bef820b3cd6b7704fbdee81a251de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:22 +0000
Subject: [PATCH 10/64] fix: add_range checks the validating repertoire for
 code points that are not IDNA valid

When invalid properties are allowed, such code points bypassed the
validating repertoire in a range, but not alone.
---
 lgr/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lgr/core.py b/lgr/core.py
index 711e9d2..e1d53c0 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -490,6 +490,10 @@ class LGR(object):
             elif isinstance(status, CharInvalidIdnaProperty):
                 logger.error("CP '%s' is not IDNA valid", format_cp(cp))
                 if not self.raise_on_invalid_property:
+                    if (validating_repertoire is not None
+                            and not override_repertoire and not force
+                            and not validating_repertoire.check_cp(cp)):
+                        raise NotInRepertoire(cp)
                     overridden = True
                 elif not force:
                     raise status
-- 
2.43.0


From 696375f71625528587a3d68717e6d19709690ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:08 +0000
Subject: [PATCH 11/64] fix: an LGR document without meta element can be parsed

---
 lgr/parser/xml_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 38d9ff6..344a68c 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -142,6 +142,9 @@ class XMLParser(LGRParser):
                                   tag=META_TAG,
                                   **self.PARSER_OPTIONS)
         self._fast_iter(context)
+        if self._lgr is None:
+            # No "meta" element, use default value
+            self._process_meta({})
         unicode_version = self._lgr.metadata.unicode_version
         self._lgr = None
 
@@ -494,7 +497,7 @@ class XMLParser(LGRParser):
         """
         metadata_added = False
         for _, elem in context:
-            if not metadata_added and elem == DATA_TAG:
+            if not metadata_added and elem.tag == DATA_TAG:
                 # The optional "meta" element is not present since it must
                 # preceed the required data element.
                 # However, we still have to call _process_meta
@@ -503,6 +506,7 @@ class XMLParser(LGRParser):
             if elem.tag == META_TAG:
                 logger.debug("Got 'meta' element")
                 self._process_meta(elem)
+                metadata_added = True
             elif elem.tag == DATA_TAG:
                 logger.debug("Got 'data' element")
                 self._process_data(elem)
-- 
2.43.0


From efcfd5f69d6816c0dfff69b9c02e422677055043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:19 +0000
Subject: [PATCH 12/64] fix: values of list attributes may be separated by
 several spaces

---
 lgr/parser/xml_parser.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 344a68c..afaf1fc 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -563,12 +563,7 @@ def string_to_list(string):
     >>> string_to_list("one two") == ["one", "two"]
     True
     """
-    # This is because(''.split('') -> [''])
-    result = []
-    if len(string) > 0:
-        result = string.split(' ')
-
-    return result
+    return string.split()
 
 
 def drop_ns(node):
-- 
2.43.0


From 729770454804adc4510ad1fa4e2e95120cf9ae3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:30 +0000
Subject: [PATCH 13/64] fix: the description element may be empty

---
 lgr/parser/xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index afaf1fc..c71128d 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -204,7 +204,7 @@ class XMLParser(LGRParser):
             elif tag == DESCRIPTION_TAG:
                 # Seems to be an issue with CDATA/iterparse: https://bugs.launchpad.net/lxml/+bug/1788449
                 # For now, manually replace CRLF with LF
-                metadata.description = Description(child.text.replace('\r\n', '\n'),
+                metadata.description = Description((child.text or '').replace('\r\n', '\n'),
                                                    child.get('type', None))
             elif tag == REFERENCES_TAG:
                 for reference in child:
-- 
2.43.0


From 42b60c9a96b6fa94ac720528c7d213f1661199d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 14/64] fix: an LGR whose description contains the end of CDATA
 mark can be serialized

---
 lgr/parser/xml_serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/xml_serializer.py b/lgr/parser/xml_serializer.py
index 70c08ae..5358d63 100644
--- a/lgr/parser/xml_serializer.py
+++ b/lgr/parser/xml_serializer.py
@@ -100,8 +100,8 @@ def _serialize_meta(lgr, meta):
             node.attrib['type'] = metadata.description.description_type
 
         content = metadata.description.value
-        if metadata.description.description_type not in [None, 'text/plain']:
-            # Wrap content in CDATA section
+        if metadata.description.description_type not in [None, 'text/plain'] and ']]>' not in content:
+            # Wrap content in CDATA section, unless it contains the end of section mark
             content = etree.CDATA(content)
         node.text = content
 
-- 
2.43.0


From a9c59573c91c90a2d9f3a1a56b305d121a414130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 15/64] fix: a Unicode version followed by other characters is
 not valid

---
 lgr/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/metadata.py b/lgr/metadata.py
index 2097fa2..4849c43 100644
--- a/lgr/metadata.py
+++ b/lgr/metadata.py
@@ -322,7 +322,7 @@ class Metadata(object):
                                     has an invalid format.
         """
 
-        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}', unicode_version) is None:
+        if re.match(r'\d{1,}\.\d{1,}\.\d{1,}\Z', unicode_version) is None:
             logger.log(logging.WARNING if force else logging.ERROR,
                        "Invalid Unicode version: '%s'", unicode_version)
             self.rfc7940_checks.error('valid_unicode_version')
-- 
2.43.0


From 12d0fae83a33e597404f89c7c76d086fa50c08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:44 +0000
Subject: [PATCH 16/64] fix: the metadata check copes with an empty version
 element

---
 lgr/validate/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/metadata.py b/lgr/validate/metadata.py
index acb89d2..1445be4 100644
--- a/lgr/validate/metadata.py
+++ b/lgr/validate/metadata.py
@@ -74,7 +74,7 @@ def check_metadata(lgr, options):
 
     # Version
     if lgr.metadata.version is not None:
-        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value):
+        if not re.match(r'[1-9]\d*$', lgr.metadata.version.value or ''):
             lgr.notify_error('metadata_version_integer')
             success = False
     lgr.notify_tested('metadata_version_integer')
-- 
2.43.0


From 148db48c4ec8a167de577054c4540c43915f6343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 17/64] fix: validating an LGR does not extend the global list
 of checks

---
 lgr/validate/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/validate/__init__.py b/lgr/validate/__init__.py
index abdbe7f..d408306 100644
--- a/lgr/validate/__init__.py
+++ b/lgr/validate/__init__.py
@@ -50,7 +50,7 @@ def validate_lgr(lgr, options):
 
     result = []
 
-    TO_RUN = CHECKS
+    TO_RUN = list(CHECKS)
     if options.get('rfc7940'):
         TO_RUN += RFC7940_CHECKS
 
-- 
2.43.0


From 9f515b1f21a17a28556d999739541d28c340f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 18/64] fix: the RFC 7940 checks do not log through (and
 configure) the root logger

---
 lgr/validate/metadata.py      | 10 +++++-----
 lgr/validate/miscellaneous.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lgr/validate/metadata.py b/lgr/validate/metadata.py
index 1445be4..44e3143 100644
--- a/lgr/validate/metadata.py
+++ b/lgr/validate/metadata.py
@@ -37,19 +37,19 @@ def check_metadata(lgr, options):
     today = datetime.date.today().strftime("%Y-%m-%d")
 
     if vend is not None and today > vend:
-        logging.error("validity_end has expired")
+        logger.error("validity_end has expired")
         lgr.notify_error('validity_end_expiry')
         success = False
     lgr.notify_tested('validity_end_expiry')
 
     if vstart is not None and vend is not None and vstart > vend:
-        logging.error("validity_start is later than validity_end")
+        logger.error("validity_start is later than validity_end")
         lgr.notify_error('validity_start_end')
         success = False
     lgr.notify_tested('validity_start_end')
 
     if vstart is not None and vstart > today:
-        logging.error("validity_start is in the future")
+        logger.error("validity_start is in the future")
         lgr.notify_error('validity_started')
         success = False
     lgr.notify_tested('validity_started')
@@ -59,7 +59,7 @@ def check_metadata(lgr, options):
         t = lgr.metadata.description.description_type
         if t is not None:
             if t not in mimetypes.types_map.values():
-                logging.error("description has invalid mime type '%s'", t)
+                logger.error("description has invalid mime type '%s'", t)
                 lgr.notify_error('metadata_description_type')
                 success = False
     lgr.notify_tested('metadata_description_type')
@@ -67,7 +67,7 @@ def check_metadata(lgr, options):
     # scope
     for s in lgr.metadata.scopes:
         if s.scope_type not in VALID_SCOPE_TYPES:
-            logging.error("invalid scope type '%s'", s.scope_type)
+            logger.error("invalid scope type '%s'", s.scope_type)
             lgr.notify_error('metadata_scope_type')
             success = False
     lgr.notify_tested('metadata_scope_type')
diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 6af4988..5834e6c 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -33,7 +33,7 @@ def check_lgr_data(lgr):
             if v.type is not None:
                 t = v.type
                 if ' ' in t or t == '' or t[0] == '_':
-                    logging.error("Bad variant type '%s'", t)
+                    logger.error("Bad variant type '%s'", t)
                     success = False
                     lgr.notify_error('data_variant_type')
         lgr.notify_tested('data_variant_type')
@@ -55,7 +55,7 @@ def check_lgr_data(lgr):
         # Check that all code points are valid in our Unicode version
         _, invalid_cps = is_idna_valid_cp_or_sequence(to_check, lgr.unicode_database, check_all=True)
         for cp, prop in invalid_cps.items():
-            logging.error("Invalid codepoint '%04X': %s", cp, prop)
+            logger.error("Invalid codepoint '%04X': %s", cp, prop)
             success = False
             lgr.notify_error('codepoint_valid')
         lgr.notify_tested('codepoint_valid')
@@ -81,7 +81,7 @@ def check_ref_ascending(lgr, reflist):
             break
         if not int(n) > last:
             lgr.notify_error('ref_attribute_ascending')
-            logging.warning("references not in ascending order: %d --> %d", last, int(n))
+            logger.warning("references not in ascending order: %d --> %d", last, int(n))
             return False
         last = int(n)
     return True
@@ -96,7 +96,7 @@ def check_lgr_rules(lgr):
         if not disp in STANDARD_DISPOSITIONS:
             lgr.notify_error('standard_dispositions')
             success = False
-            logging.error("Action element has non-standard disposition " + disp)
+            logger.error("Action element has non-standard disposition " + disp)
     lgr.notify_tested('standard_dispositions')
     return success
 
-- 
2.43.0


From c67c221be7b9cbc1af308d3e1bd254b7385fe51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:47 +0000
Subject: [PATCH 19/64] fix: rule log handlers are removed on errors and while
 variants are being consumed

---
 lgr/core.py | 93 ++++++++++++++++++++++++++---------------------------
 1 file changed, 46 insertions(+), 47 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index e1d53c0..bf1c72c 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1074,39 +1074,37 @@ class LGR(object):
             ch.setLevel(logging.INFO)
             rule_logger.addHandler(ch)
 
-        # Start by testing presence of code points in LGR
-        chars = []
-        if generate_chars:
-            (valid, label_parts, label_invalid_parts, chars) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
-        else:
-            (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
-        if not valid:
-            rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
-            if collect_log:
-                rule_logger.removeHandler(ch)
+        try:
+            # Start by testing presence of code points in LGR
+            chars = []
             if generate_chars:
-                return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
+                (valid, label_parts, label_invalid_parts, chars) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
             else:
-                return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue()
+                (valid, label_parts, label_invalid_parts) = self._test_preliminary_eligibility(label, generate_chars=generate_chars)
+            if not valid:
+                rule_logger.error("Label '%s' is not in the LGR", format_cp(label))
+                if generate_chars:
+                    return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue(), chars
+                else:
+                    return False, label_parts, label_invalid_parts, INVALID_DISPOSITION, -1, log_output.getvalue()
+
+            # Compute label disposition by analyzing reflexive mappings
+            (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
+            if disposition == INVALID_DISPOSITION:
+                rule_logger.error("Invalid disposition for reflexive mapping, "
+                                  "triggered by action #%d", action_idx)
+                if generate_chars:
+                    return False, [], [], disposition, action_idx, log_output.getvalue(), chars
+                else:
+                    return False, [], [], disposition, action_idx, log_output.getvalue()
 
-        # Compute label disposition by analyzing reflexive mappings
-        (disposition, action_idx) = self._test_label_disposition(label, apply_reflexive_mapping=not is_variant)
-        if disposition == INVALID_DISPOSITION:
-            rule_logger.error("Invalid disposition for reflexive mapping, "
-                              "triggered by action #%d", action_idx)
-            if collect_log:
-                rule_logger.removeHandler(ch)
             if generate_chars:
-                return False, [], [], disposition, action_idx, log_output.getvalue(), chars
+                return True, label, [], disposition, action_idx, log_output.getvalue(), chars
             else:
-                return False, [], [], disposition, action_idx, log_output.getvalue()
-
-        if collect_log:
-            rule_logger.removeHandler(ch)
-        if generate_chars:
-            return True, label, [], disposition, action_idx, log_output.getvalue(), chars
-        else:
-            return True, label, [], disposition, action_idx, log_output.getvalue()
+                return True, label, [], disposition, action_idx, log_output.getvalue()
+        finally:
+            if collect_log:
+                rule_logger.removeHandler(ch)
 
     def compute_label_disposition(self, label, include_invalid=False,
                                   collect_log=True, hide_mixed_script_variants=False,
@@ -1180,24 +1178,28 @@ class LGR(object):
                 ch.setLevel(logging.DEBUG)
                 rule_logger.addHandler(ch)
 
-            # 8.3.  Determining a Disposition for a Label or Variant Label
-            # Step 1
-            eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
-                                                                                     is_variant=variant_cp != label,
-                                                                                     collect_log=collect_log)
-            if not eligible:
-                variant_disp = INVALID_DISPOSITION
-            else:
+            try:
                 # 8.3.  Determining a Disposition for a Label or Variant Label
-                # Step 2 - 3
-                (variant_disp, idx) = self._apply_actions(variant_cp,
-                                                          disp_set,
-                                                          only_variants)
-
-                if variant_disp is None:
+                # Step 1
+                eligible, _, variant_invalid_parts, _, idx, _ = self.test_label_eligible(variant_cp,
+                                                                                         is_variant=variant_cp != label,
+                                                                                         collect_log=collect_log)
+                if not eligible:
+                    variant_disp = INVALID_DISPOSITION
+                else:
                     # 8.3.  Determining a Disposition for a Label or Variant Label
-                    # Step 4
-                    variant_disp = DEFAULT_DISPOSITION
+                    # Step 2 - 3
+                    (variant_disp, idx) = self._apply_actions(variant_cp,
+                                                              disp_set,
+                                                              only_variants)
+
+                    if variant_disp is None:
+                        # 8.3.  Determining a Disposition for a Label or Variant Label
+                        # Step 4
+                        variant_disp = DEFAULT_DISPOSITION
+            finally:
+                if collect_log:
+                    rule_logger.removeHandler(ch)
 
             if (variant_disp != INVALID_DISPOSITION) or include_invalid:
                 if variant_cp == label:
@@ -1212,9 +1214,6 @@ class LGR(object):
                     else:
                         yield variant_cp, variant_disp, variant_invalid_parts, idx, disp_set, log_output.getvalue()
 
-            if collect_log:
-                rule_logger.removeHandler(ch)
-
         if not original_label:
             # TODO: already computed since label MUST be eligible
             rule_logger.debug('Add original label')
-- 
2.43.0


From 2a715bc62ce2b195778211ef86fd72414506f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 20/64] fix: comparing two LGRs does not expand the ranges of
 its inputs

---
 lgr/tools/compare/diff.py      | 5 +++++
 lgr/tools/compare/intersect.py | 5 +++--
 lgr/tools/compare/union.py     | 5 +++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index f6c5e81..10dcabb 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -4,6 +4,8 @@ diff.py - Compute (textual) diff of two LGRs.
 """
 from __future__ import unicode_literals
 
+import copy
+
 from lgr import text_type
 from lgr.tools.compare.utils import display_variant, VariantProperties
 from lgr.utils import format_cp
@@ -284,6 +286,9 @@ def diff_lgrs(lgr1, lgr2, show_same=True):
     """
     output = ""
 
+    # Work on copies since ranges have to be expanded
+    lgr1 = copy.deepcopy(lgr1)
+    lgr2 = copy.deepcopy(lgr2)
     lgr1.expand_ranges()
     lgr2.expand_ranges()
 
diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 3bbbc69..0e30487 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -242,14 +242,15 @@ def intersect_lgrs(lgr1, lgr2):
     """
     Compute the intersection of 2 LGRs and returns a valid LGR.
 
-    Note: Ranges have to be expanded before calling this function.
-
     :param lgr1: First LGR.
     :param lgr2: Second LGR.
     :return: New LGR: intersection of two inputs.
     """
     name = 'Intersection of %s and %s' % (lgr1.name, lgr2.name)
 
+    # Work on copies since ranges have to be expanded
+    lgr1 = copy.deepcopy(lgr1)
+    lgr2 = copy.deepcopy(lgr2)
     lgr1.expand_ranges()
     lgr2.expand_ranges()
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 887f53b..1297ae4 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -285,8 +285,6 @@ def union_lgrs(lgr1, lgr2):
     """
     Compute the union of 2 LGRs and returns a valid LGR.
 
-    Note: Ranges have to be expanded before calling this function.
-
     :param lgr1: First LGR.
     :param lgr2: Second LGR.
     :return: New LGR: union of two inputs.
@@ -295,6 +293,9 @@ def union_lgrs(lgr1, lgr2):
 
     logger.debug("Union of %s", name)
 
+    # Work on copies since ranges have to be expanded
+    lgr1 = copy.deepcopy(lgr1)
+    lgr2 = copy.deepcopy(lgr2)
     lgr1.expand_ranges()
     lgr2.expand_ranges()
 
-- 
2.43.0


From d20542732096fc663c64fcfd6d72dd410583c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 21/64] fix: the metadata of the union and intersection take
 both LGRs into account

---
 lgr/tools/compare/intersect.py |  6 +++---
 lgr/tools/compare/union.py     | 15 ++++++---------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 0e30487..a8ce1dc 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -7,6 +7,7 @@ from __future__ import unicode_literals
 import copy
 import logging
 from datetime import date
+from collections import OrderedDict
 
 from lgr.tools.compare.utils import compare_objects
 
@@ -85,9 +86,8 @@ def intersect_metadata(first, second):
     output.description = intersect_description(first.description,
                                                second.description)
 
-    output.scopes = set.intersection(set(first.scopes), set(first.scopes))
-    output.languages = set.intersection(set(first.languages),
-                                        set(second.languages))
+    output.scopes = [s for s in OrderedDict.fromkeys(first.scopes) if s in second.scopes]
+    output.languages = [l for l in OrderedDict.fromkeys(first.languages) if l in second.languages]
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 1297ae4..ee7b919 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -88,15 +88,12 @@ def union_metadata(first, second):
 
     output = Metadata()
 
-    if first.version is not None:
-        output.version = union_version(first.version, second.version)
-    if first.description is not None:
-        output.description = union_description(first.description,
-                                               second.description)
-
-    output.scopes = set.union(set(first.scopes), set(first.scopes))
-    output.languages = set.union(set(first.languages),
-                                 set(second.languages))
+    output.version = union_version(first.version, second.version)
+    output.description = union_description(first.description,
+                                           second.description)
+
+    output.scopes = list(OrderedDict.fromkeys(first.scopes + second.scopes))
+    output.languages = list(OrderedDict.fromkeys(first.languages + second.languages))
 
     output.date = date.today().isoformat()
     output.validity_start = compare_objects(first.validity_start,
-- 
2.43.0


From bf60edd00637e5cd61b0e7c298b64df9afd8e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:19 +0000
Subject: [PATCH 22/64] fix: the union keeps the variants of code points only
 in the first LGR, and common context rules

---
 lgr/tools/compare/union.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index ee7b919..f8a65c9 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -141,9 +141,12 @@ def union_char(lgr, first, second):
 
     tags = list(set.union(set(first.tags), set(second.tags)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    # Context rules are only kept if both code points have the same
+    when = first.when if first.when == second.when else None
+    not_when = first.not_when if first.not_when == second.not_when else None
+    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
 
-    for v in set.union(set(first.get_variants()), set(second.get_variants())):
+    for v in OrderedDict.fromkeys(list(first.get_variants()) + list(second.get_variants())):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
                         when=v.when, not_when=v.not_when,
                         comment=v.comment)
@@ -330,6 +333,11 @@ def union_lgrs(lgr1, lgr2):
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
+        for v in char.get_variants():
+            lgr.add_variant(char.cp, v.cp, variant_type=v.type,
+                            when=v.when, not_when=v.not_when,
+                            comment=v.comment)
+
     for cp in set.difference(second_cps, first_cps):
         char = lgr2.get_char(cp)
 
-- 
2.43.0


From 90a725b43540987081b3c9e246378d98ec2155c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 23/64] fix: what the union of two LGRs renames is renamed
 where it is used, references included, and the result is a valid LGR

---
 lgr/tools/compare/union.py | 164 ++++++++++++++-----------------------
 lgr/tools/compare/utils.py | 134 +++++++++++++++++++++++++++++-
 2 files changed, 194 insertions(+), 104 deletions(-)

diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index f8a65c9..7d1fc59 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -7,12 +7,16 @@ from __future__ import unicode_literals
 import copy
 import logging
 from datetime import date
+from io import BytesIO
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import (compare_objects, conflicting_names,
+                                     distinct_names, rename_entities)
 
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
+from lgr.parser.xml_parser import XMLParser
+from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
 
 logger = logging.getLogger(__name__)
@@ -116,17 +120,26 @@ def union_reference_manager(first, second):
 
     :param first: The first object to union.
     :param second: The other object to union.
-    :return: A new reference manager object.
+    :return: (new reference manager object,
+              dictionary of the new identifiers for the references of the second object).
     """
-    first_ref = {r['value'] for r in first.values()}
-    second_ref = {r['value'] for r in second.values()}
-
     output = ReferenceManager()
+    ids = {}
 
-    for ref in set.union(first_ref, second_ref):
-        output.add_reference(ref)
+    for ref_id, ref in first.items():
+        ids.setdefault(ref['value'], ref_id)
+        output.add_reference(ref['value'], comment=ref.get('comment'), ref_id=ref_id)
 
-    return output
+    mapping = {}
+    for ref_id, ref in second.items():
+        value = ref['value']
+        if value not in ids:
+            new_id = None if ref_id in output else ref_id
+            ids[value] = output.add_reference(value, comment=ref.get('comment'), ref_id=new_id)
+        if ids[value] != ref_id:
+            mapping[ref_id] = ids[value]
+
+    return output, mapping
 
 
 def union_char(lgr, first, second):
@@ -144,12 +157,13 @@ def union_char(lgr, first, second):
     # Context rules are only kept if both code points have the same
     when = first.when if first.when == second.when else None
     not_when = first.not_when if first.not_when == second.not_when else None
-    lgr.add_cp(first.cp, comment=comment, tag=tags, when=when, not_when=not_when)
+    references = list(OrderedDict.fromkeys(first.references + second.references))
+    lgr.add_cp(first.cp, comment=comment, ref=references, tag=tags, when=when, not_when=not_when)
 
     for v in OrderedDict.fromkeys(list(first.get_variants()) + list(second.get_variants())):
         lgr.add_variant(first.cp, v.cp, variant_type=v.type,
                         when=v.when, not_when=v.not_when,
-                        comment=v.comment)
+                        comment=v.comment, ref=v.references)
 
 
 def union_actions(lgr1, lgr2):
@@ -164,121 +178,56 @@ def union_actions(lgr1, lgr2):
 
     # Union of actions:
     # Concat both action lists
-    # Need OrderedDict instead of sets to keep order
-
-    actions = OrderedDict()
-    actions_xml = OrderedDict()
+    # Keep each action once, in order
 
-    actions.update(OrderedDict.fromkeys(lgr1.actions))
-    actions.update(OrderedDict.fromkeys(lgr2.actions))
+    actions = []
+    actions_xml = []
 
-    actions_xml.update(OrderedDict.fromkeys(lgr1.actions_xml))
-    actions_xml.update(OrderedDict.fromkeys(lgr2.actions_xml))
+    for lgr in (lgr1, lgr2):
+        for idx, action in enumerate(lgr.actions):
+            if action not in actions:
+                actions.append(action)
+                actions_xml.extend(lgr.actions_xml[idx:idx + 1])
 
-    return list(actions.keys()), list(actions_xml.keys())
+    return actions, actions_xml
 
 
 def union_rules(lgr1, lgr2):
     """
     Union two rule lists.
 
+    Rules with the same name in both LGRs must have the same definition.
+
     :param lgr1: First LGR to union.
     :param lgr2: Second LGR to union.
     :return: (list of rules, list of XML rules)
     """
     logger.debug("Union of rules")
 
-    # Union of rules:
-    # - Keep rules from both LGRs.
-    # - If rule with same name in both LGRs:
-    #   - Append both elements to final LGR (rename using _1 and _2).
-
-    rules = []
-    rules_xml = []
-
-    rules_lgr1 = frozenset(lgr1.rules)
-    rules_lgr2 = frozenset(lgr2.rules)
-
-    # Compute intersection of rules
-    for rule_name in rules_lgr1 & rules_lgr2:
-        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
-        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
-
-        if rule_1 == rule_2:
-            rules_xml.append(rule_1)
-            rules.append(rule_name)
-            continue
-
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
-
-        rules_xml.append(rule_1)
-        rules_xml.append(rule_2)
-
-        rules.append(rule_name + '_1')
-        rules.append(rule_name + '_2')
-
-    for rule_name in rules_lgr1 - rules_lgr2:
-        rules_xml.append(lgr1.rules_xml[lgr1.rules.index(rule_name)])
-        rules.append(rule_name)
+    rules = OrderedDict(zip(lgr1.rules, lgr1.rules_xml))
+    for name, xml in zip(lgr2.rules, lgr2.rules_xml):
+        rules.setdefault(name, xml)
 
-    for rule_name in rules_lgr2 - rules_lgr1:
-        rules_xml.append(lgr2.rules_xml[lgr2.rules.index(rule_name)])
-        rules.append(rule_name)
-
-    return rules, rules_xml
+    return list(rules.keys()), list(rules.values())
 
 
 def union_classes(lgr1, lgr2):
     """
     Union two class lists.
 
+    Classes with the same name in both LGRs must have the same definition.
+
     :param lgr1: First LGR to union.
     :param lgr2: Second LGR to union.
     :return: (list of classes, list of XML classes)
     """
     logger.debug("Union of classes")
 
-    # Union of classes:
-    # - Keep classes from both LGRs.
-    # - If class with same name in both LGRs:
-    #   - Append both elements to final LGR (rename using _1 and _2).
-
-    classes = []
-    classes_xml = []
-
-    classes_lgr1 = frozenset(lgr1.classes)
-    classes_lgr2 = frozenset(lgr2.classes)
-
-    # Compute intersection of classes
-    for class_name in classes_lgr1 & classes_lgr2:
-        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
-        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
-
-        if class_1 == class_2:
-            classes_xml.append(class_1)
-            classes.append(class_name)
-            continue
+    classes = OrderedDict(zip(lgr1.classes, lgr1.classes_xml))
+    for name, xml in zip(lgr2.classes, lgr2.classes_xml):
+        classes.setdefault(name, xml)
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
-
-        classes_xml.append(class_1)
-        classes_xml.append(class_2)
-
-        classes.append(class_name + '_1')
-        classes.append(class_name + '_2')
-
-    # Append all other classes
-    for class_name in classes_lgr1 - classes_lgr2:
-        classes_xml.append(lgr1.classes_xml[lgr1.classes.index(class_name)])
-        classes.append(class_name)
-
-    for class_name in classes_lgr2 - classes_lgr1:
-        classes_xml.append(lgr2.classes_xml[lgr2.classes.index(class_name)])
-        classes.append(class_name)
-
-    return classes, classes_xml
+    return list(classes.keys()), list(classes.values())
 
 
 def union_lgrs(lgr1, lgr2):
@@ -306,10 +255,18 @@ def union_lgrs(lgr1, lgr2):
     lgr = LGR(name=name, metadata=metadata)
 
     # No need to copy references, they are new objects
-    references = union_reference_manager(lgr1.reference_manager,
-                                         lgr2.reference_manager)
+    (references, ref_mapping) = union_reference_manager(lgr1.reference_manager,
+                                                        lgr2.reference_manager)
     lgr.reference_manager = references
 
+    # Rename the entities of the second LGR, and the rules and classes defined differently in both LGRs
+    rename_entities(lgr2, {}, {}, ref_mapping)
+    (rules, classes) = conflicting_names(lgr1, lgr2)
+    rules = distinct_names(rules, lgr1, lgr2)
+    classes = distinct_names(classes, lgr1, lgr2)
+    rename_entities(lgr1, rules[0], classes[0], {})
+    rename_entities(lgr2, rules[1], classes[1], {})
+
     first_cps = {c.cp for c in lgr1.repertoire}
     second_cps = {c.cp for c in lgr2.repertoire}
 
@@ -329,28 +286,28 @@ def union_lgrs(lgr1, lgr2):
 
         lgr.add_cp(char.cp,
                    comment=char.comment,
-                   #ref=char.references,
+                   ref=char.references,
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
         for v in char.get_variants():
             lgr.add_variant(char.cp, v.cp, variant_type=v.type,
                             when=v.when, not_when=v.not_when,
-                            comment=v.comment)
+                            comment=v.comment, ref=v.references)
 
     for cp in set.difference(second_cps, first_cps):
         char = lgr2.get_char(cp)
 
         lgr.add_cp(char.cp,
                    comment=char.comment,
-                   #ref=char.references,
+                   ref=char.references,
                    tag=char.tags,
                    when=char.when, not_when=char.not_when)
 
         for v in char.get_variants():
             lgr.add_variant(char.cp, v.cp, variant_type=v.type,
                             when=v.when, not_when=v.not_when,
-                            comment=v.comment)
+                            comment=v.comment, ref=v.references)
 
     (actions, actions_xml) = union_actions(lgr1, lgr2)
     lgr.actions = copy.deepcopy(actions)
@@ -364,4 +321,5 @@ def union_lgrs(lgr1, lgr2):
     lgr.classes = classes
     lgr.classes_xml = classes_xml
 
-    return lgr
+    # Serialize and parse the result to get the objects of rules and classes
+    return XMLParser(BytesIO(serialize_lgr_xml(lgr)), filename=name).parse_document()
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index ded6670..3dde4c7 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -2,8 +2,11 @@
 """
 utils.py - Definition of utility functions.
 """
-from collections import namedtuple
+from collections import OrderedDict, namedtuple
 
+from lxml import etree
+
+from lgr import text_type
 from lgr.utils import format_cp
 
 
@@ -51,3 +54,132 @@ def compare_objects(first, second, cmp_fct):
         return first
 
     return cmp_fct(first, second)
+
+
+def _referred_names(xml):
+    """
+    List the names of the rules and of the classes an XML fragment refers to.
+
+    :param xml: XML text of a rule or a class.
+    :return: (set of rule names, set of class names).
+    """
+    rules, classes = set(), set()
+    for elem in etree.fromstring(xml).iter(etree.Element):
+        if elem.get('by-ref') is not None:
+            (rules if elem.tag == 'rule' else classes).add(elem.get('by-ref'))
+    return rules, classes
+
+
+def conflicting_names(lgr1, lgr2):
+    """
+    List the names of the rules and of the classes which are defined differently in two LGRs,
+    including the ones whose definitions refer to a rule or class defined differently.
+
+    :param lgr1: First LGR.
+    :param lgr2: Second LGR.
+    :return: (set of rule names, set of class names).
+    """
+    def definitions(names, xml):
+        return dict(zip(names, xml))
+
+    rules1, rules2 = (definitions(l.rules, l.rules_xml) for l in (lgr1, lgr2))
+    classes1, classes2 = (definitions(l.classes, l.classes_xml) for l in (lgr1, lgr2))
+    common_rules = {n for n in rules1 if n in rules2}
+    common_classes = {n for n in classes1 if n in classes2}
+
+    rules = {n for n in common_rules if rules1[n] != rules2[n]}
+    classes = {n for n in common_classes if classes1[n] != classes2[n]}
+    # A name used but not defined in one LGR must not refer to the definition in the other one
+    rules |= {n for n in set(rules1) ^ set(rules2)}
+    classes |= {n for n in set(classes1) ^ set(classes2)}
+
+    changed = True
+    while changed:
+        changed = False
+        for names, common, defs in ((rules, common_rules, rules1), (classes, common_classes, classes1)):
+            for name in common - names:
+                used_rules, used_classes = _referred_names(defs[name])
+                if used_rules & rules or used_classes & classes:
+                    names.add(name)
+                    changed = True
+
+    return rules & common_rules, classes & common_classes
+
+
+def distinct_names(names, lgr1, lgr2):
+    """
+    Find new names for entities with the same name in two LGRs.
+
+    :param names: The names to change.
+    :param lgr1: First LGR.
+    :param lgr2: Second LGR.
+    :return: (dictionary of new names for the first LGR, dictionary of new names for the second LGR).
+    """
+    used = set(lgr1.rules + lgr1.classes + lgr2.rules + lgr2.classes)
+    result = ({}, {})
+    for name in sorted(names):
+        for number, new_names in enumerate(result, 1):
+            new_name = '{}_{}'.format(name, number)
+            while new_name in used:
+                new_name += '_{}'.format(number)
+            used.add(new_name)
+            new_names[name] = new_name
+    return result
+
+
+def _rename_references(ref_ids, references):
+    """
+    Rename a list of references, keeping each one once.
+    """
+    return list(OrderedDict.fromkeys(references.get(r, r) for r in ref_ids))
+
+
+def _rename_in_xml(xml, rules, classes, references):
+    """
+    Rename the entities in the XML text of a rule, class or action.
+    """
+    root = etree.fromstring(xml)
+    for elem in root.iter(etree.Element):
+        if elem.tag == 'action':
+            attributes, names = ('match', 'not-match'), rules
+        else:
+            attributes, names = ('name', 'by-ref'), rules if elem.tag == 'rule' else classes
+        for attribute in attributes:
+            if elem.get(attribute) in names:
+                elem.set(attribute, names[elem.get(attribute)])
+        if elem.get('ref') is not None:
+            elem.set('ref', ' '.join(_rename_references(elem.get('ref').split(), references)))
+    return etree.tostring(root, encoding=text_type)
+
+
+def rename_entities(lgr, rules, classes, references):
+    """
+    Rename rules, classes and references of an LGR, where they are defined and where they are used.
+
+    The objects of classes and rules are left untouched, only their XML text is updated.
+
+    :param lgr: The LGR, modified in place.
+    :param rules: Dictionary of new names of the rules.
+    :param classes: Dictionary of new names of the classes.
+    :param references: Dictionary of new identifiers of the references.
+    """
+    def rename(obj):
+        obj.references = _rename_references(obj.references, references)
+
+    for char in lgr.repertoire:
+        for obj in [char] + list(char.get_variants()):
+            rename(obj)
+            obj.when = rules.get(obj.when, obj.when)
+            obj.not_when = rules.get(obj.not_when, obj.not_when)
+
+    for action in lgr.actions:
+        rename(action)
+        action.match = rules.get(action.match, action.match)
+        action.not_match = rules.get(action.not_match, action.not_match)
+
+    lgr.rules = [rules.get(n, n) for n in lgr.rules]
+    lgr.classes = [classes.get(n, n) for n in lgr.classes]
+    if rules or classes or references:
+        lgr.rules_xml = [_rename_in_xml(x, rules, classes, references) for x in lgr.rules_xml]
+        lgr.classes_xml = [_rename_in_xml(x, rules, classes, references) for x in lgr.classes_xml]
+        lgr.actions_xml = [_rename_in_xml(x, rules, classes, references) for x in lgr.actions_xml]
-- 
2.43.0


From 3c16fc9b286f4828f7007acacedecec6caab5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 24/64] fix: the intersection keeps only what both LGRs define
 alike, with types and context rules

---
 lgr/tools/compare/intersect.py | 127 +++++++++++++++------------------
 lgr/tools/compare/utils.py     |  13 ++--
 2 files changed, 68 insertions(+), 72 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index a8ce1dc..a8e0f01 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -7,13 +7,16 @@ from __future__ import unicode_literals
 import copy
 import logging
 from datetime import date
+from io import BytesIO
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, conflicting_names, rename_entities
 
 from lgr.char import CharBase
 from lgr.core import LGR
 from lgr.metadata import Metadata, Version, Description, ReferenceManager
+from lgr.parser.xml_parser import XMLParser
+from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
 
 logger = logging.getLogger(__name__)
@@ -110,130 +113,113 @@ def intersect_reference_manager(first, second):
 
     :param first: The first object to intersect with.
     :param second: The other object to intersect with.
-    :return: A new reference manager object.
+    :return: (new reference manager object,
+              dictionary of the new identifiers for the references of the first object,
+              dictionary of the new identifiers for the references of the second object).
     """
-    first_ref = {r['value'] for r in first.values()}
     second_ref = {r['value'] for r in second.values()}
 
     output = ReferenceManager()
+    ids = {}
 
-    for ref in set.intersection(first_ref, second_ref):
-        output.add_reference(ref)
+    for ref_id, ref in first.items():
+        if ref['value'] in second_ref:
+            output.add_reference(ref['value'], comment=ref.get('comment'), ref_id=ref_id)
+            ids.setdefault(ref['value'], ref_id)
 
-    return output
+    return (output,
+            {ref_id: None for ref_id in first if ref_id not in output},
+            {ref_id: ids.get(ref['value']) for ref_id, ref in second.items()})
 
 
-def intersect_char(lgr, first, second):
+def intersect_char(lgr, first, second, different_rules=()):
     """
     Intersect two chars with same CP.
 
     :param lgr: The produced LGR.
     :param first: The first object to intersect with.
     :param second: The other object to intersect with.
+    :param different_rules: Names of the rules defined differently in both LGRs.
     """
     comment = let_user_choose(first.comment, second.comment)
 
-    tags = list(set.intersection(set(first.tags), set(second.tags)))
+    tags = [t for t in first.tags if t in second.tags]
+    references = [r for r in first.references if r in second.references]
+
+    # Context rules are only kept if both code points have the same
+    when, not_when = (rule_1 if rule_1 == rule_2 and rule_1 not in different_rules else None
+                      for rule_1, rule_2 in ((first.when, second.when), (first.not_when, second.not_when)))
 
-    lgr.add_cp(first.cp, comment=comment, tag=tags)
+    lgr.add_cp(first.cp, comment=comment, ref=references, tag=tags, when=when, not_when=not_when)
 
-    variant_first = {(v.cp, v.when, v.not_when) for v in first.get_variants()}
-    variant_second = {(v.cp, v.when, v.not_when) for v in second.get_variants()}
+    variants_second = {(v.cp, v.when, v.not_when): v for v in second.get_variants()}
 
-    for v in set.intersection(variant_first, variant_second):
-        lgr.add_variant(first.cp, v[0], when=v[1], not_when=v[2])
+    for v in first.get_variants():
+        other = variants_second.get((v.cp, v.when, v.not_when))
+        if other is None or v.when in different_rules or v.not_when in different_rules:
+            continue
+        lgr.add_variant(first.cp, v.cp,
+                        variant_type=v.type if v.type == other.type else None,
+                        when=v.when, not_when=v.not_when)
 
 
-def intersect_actions(lgr1, lgr2):
+def intersect_actions(lgr1, lgr2, different_rules=()):
     """
     Intersect two action lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
+    :param different_rules: Names of the rules defined differently in both LGRs.
     :return: (list of actions, list of XML actions)
     """
     logger.debug("Intersection of actions")
 
     # Intersection of actions:
-    # - keep same actions.
+    # - keep same actions, in the order of the first LGR.
 
-    actions = list(set.intersection(set(lgr1.actions), set(lgr2.actions)))
+    actions = [a for a in OrderedDict.fromkeys(lgr1.actions)
+               if a in lgr2.actions and a.match not in different_rules and a.not_match not in different_rules]
     actions_xml = [lgr1.actions_xml[lgr1.actions.index(a)] for a in actions]
 
     return actions, actions_xml
 
 
-def intersect_rules(lgr1, lgr2):
+def intersect_rules(lgr1, lgr2, different_rules=()):
     """
     Intersect two rule lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
+    :param different_rules: Names of the rules defined differently in both LGRs.
     :return: (list of rules, list of XML rules)
     """
     logger.debug("Intersection of rules")
 
     # Intersection of rules:
-    # - keep rules with same name in both LGRs.
-    # - append both elements to final LGR (rename using _1 and _2).
-
-    rules = []
-    rules_xml = []
-
-    for rule_name in frozenset(lgr1.rules) & frozenset(lgr2.rules):
-        rule_1 = lgr1.rules_xml[lgr1.rules.index(rule_name)]
-        rule_2 = lgr2.rules_xml[lgr2.rules.index(rule_name)]
-
-        if rule_1 == rule_2:
-            rules_xml.append(rule_1)
-            rules.append(rule_name)
-            continue
+    # - keep rules with same name and same definition in both LGRs.
 
-        rule_1 = rule_1.replace(rule_name, rule_name + '_1')
-        rule_2 = rule_2.replace(rule_name, rule_name + '_2')
-
-        rules_xml.append(rule_1)
-        rules_xml.append(rule_2)
-
-        rules.append(rule_name + '_1')
-        rules.append(rule_name + '_2')
+    rules = [r for r in lgr1.rules if r in lgr2.rules and r not in different_rules]
+    rules_xml = [lgr1.rules_xml[lgr1.rules.index(r)] for r in rules]
 
     return rules, rules_xml
 
 
-def intersect_classes(lgr1, lgr2):
+def intersect_classes(lgr1, lgr2, different_classes=()):
     """
     Intersect two class lists.
 
     :param lgr1: First LGR to intersect with.
     :param lgr2: Second LGR to intersect with.
+    :param different_classes: Names of the classes defined differently in both LGRs.
     :return: (list of classes, list of XML classes)
     """
     logger.debug("Intersection of classes")
 
     # Intersection of classes:
-    # - keep classes with same name in both LGRs.
-    # - append both elements to final LGR (rename using _1 and _2).
-
-    classes = []
-    classes_xml = []
-    for class_name in frozenset(lgr1.classes) & frozenset(lgr2.classes):
-        class_1 = lgr1.classes_xml[lgr1.classes.index(class_name)]
-        class_2 = lgr2.classes_xml[lgr2.classes.index(class_name)]
-
-        if class_1 == class_2:
-            classes_xml.append(class_1)
-            classes.append(class_name)
-            continue
+    # - keep classes with same name and same definition in both LGRs.
 
-        class_1 = class_1.replace(class_name, class_name + '_1')
-        class_2 = class_2.replace(class_name, class_name + '_2')
-
-        classes_xml.append(class_1)
-        classes_xml.append(class_2)
-
-        classes.append(class_name + '_1')
-        classes.append(class_name + '_2')
+    classes = [c for c in lgr1.classes if c in lgr2.classes and c not in different_classes]
+    classes_xml = [lgr1.classes_xml[lgr1.classes.index(c)] for c in classes]
 
     return classes, classes_xml
 
@@ -261,9 +247,13 @@ def intersect_lgrs(lgr1, lgr2):
     lgr = LGR(name=name, metadata=metadata)
 
     # No need to copy references, they are new objects
-    references = intersect_reference_manager(lgr1.reference_manager,
-                                             lgr2.reference_manager)
+    (references, ref_mapping_1, ref_mapping_2) = intersect_reference_manager(lgr1.reference_manager,
+                                                                             lgr2.reference_manager)
     lgr.reference_manager = references
+    rename_entities(lgr1, {}, {}, ref_mapping_1)
+    rename_entities(lgr2, {}, {}, ref_mapping_2)
+
+    (different_rules, different_classes) = conflicting_names(lgr1, lgr2)
 
     first_cps = {c.cp for c in lgr1.repertoire}
     second_cps = {c.cp for c in lgr2.repertoire}
@@ -273,18 +263,19 @@ def intersect_lgrs(lgr1, lgr2):
         char1 = lgr1.get_char(cp)
         char2 = lgr2.get_char(cp)
 
-        intersect_char(lgr, char1, char2)
+        intersect_char(lgr, char1, char2, different_rules)
 
-    (actions, actions_xml) = intersect_actions(lgr1, lgr2)
+    (actions, actions_xml) = intersect_actions(lgr1, lgr2, different_rules)
     lgr.actions = copy.deepcopy(actions)
     lgr.actions_xml = actions_xml
 
-    (rules, rules_xml) = intersect_rules(lgr1, lgr2)
+    (rules, rules_xml) = intersect_rules(lgr1, lgr2, different_rules)
     lgr.rules = copy.deepcopy(rules)
     lgr.rules_xml = rules_xml
 
-    (classes, classes_xml) = intersect_classes(lgr1, lgr2)
+    (classes, classes_xml) = intersect_classes(lgr1, lgr2, different_classes)
     lgr.classes = copy.deepcopy(classes)
     lgr.classes_xml = classes_xml
 
-    return lgr
+    # Serialize and parse the result to get the objects of rules and classes
+    return XMLParser(BytesIO(serialize_lgr_xml(lgr)), filename=name).parse_document()
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 3dde4c7..0fa5cc6 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -129,9 +129,10 @@ def distinct_names(names, lgr1, lgr2):
 
 def _rename_references(ref_ids, references):
     """
-    Rename a list of references, keeping each one once.
+    Rename a list of references, keeping each one once and dropping the ones without new identifier.
     """
-    return list(OrderedDict.fromkeys(references.get(r, r) for r in ref_ids))
+    new_ids = OrderedDict.fromkeys(references.get(r, r) for r in ref_ids)
+    return [r for r in new_ids if r is not None]
 
 
 def _rename_in_xml(xml, rules, classes, references):
@@ -148,7 +149,11 @@ def _rename_in_xml(xml, rules, classes, references):
             if elem.get(attribute) in names:
                 elem.set(attribute, names[elem.get(attribute)])
         if elem.get('ref') is not None:
-            elem.set('ref', ' '.join(_rename_references(elem.get('ref').split(), references)))
+            ref_ids = _rename_references(elem.get('ref').split(), references)
+            if ref_ids:
+                elem.set('ref', ' '.join(ref_ids))
+            else:
+                del elem.attrib['ref']
     return etree.tostring(root, encoding=text_type)
 
 
@@ -161,7 +166,7 @@ def rename_entities(lgr, rules, classes, references):
     :param lgr: The LGR, modified in place.
     :param rules: Dictionary of new names of the rules.
     :param classes: Dictionary of new names of the classes.
-    :param references: Dictionary of new identifiers of the references.
+    :param references: Dictionary of new identifiers of the references, None for the ones to remove.
     """
     def rename(obj):
         obj.references = _rename_references(obj.references, references)
-- 
2.43.0


From 584355389242666d42f9875f3d05b59f705f6572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 25/64] fix: merging an LGR set does not modify its members nor
 the order of the list

---
 lgr/tools/merge_set.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 5982621..749bfaa 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -459,8 +459,8 @@ def merge_lgr_set(lgr_set, name):
     """
     logger.debug("Merge %s", name)
 
-    # order LGRs
-    lgr_set.sort(key=lambda x: get_script(x).replace('und-', 'zzz'))
+    # order LGRs, without reordering the input list
+    lgr_set = sorted(lgr_set, key=lambda x: get_script(x).replace('und-', 'zzz'))
 
     # Ensure all unicode version are correct
     unicode_version = OrderedDict().fromkeys(lgr.metadata.unicode_version for lgr in lgr_set)
@@ -473,6 +473,12 @@ def merge_lgr_set(lgr_set, name):
     previous_scripts = []
     for lgr in lgr_set:
         script = get_script(lgr)
+        # Work on a copy since ranges have to be expanded
+        unicode_database = lgr.unicode_database
+        lgr = copy.deepcopy(lgr)
+        if unicode_database is not None:
+            # The database is lost when copying
+            lgr.unicode_database = unicode_database
         lgr.expand_ranges()
 
         merge_references(lgr, script, merged_lgr, ref_mapping)
-- 
2.43.0


From dbcbe4a22ade73024c5747f7341a2dde46b37d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:27 +0000
Subject: [PATCH 26/64] fix: the comparison reports context rules, definitions
 and actions that differ, and no difference for missing metadata or reordered
 tags

---
 lgr/tools/compare/diff.py  | 69 ++++++++++++++++++++++++++++----------
 lgr/tools/compare/utils.py | 14 ++++++++
 2 files changed, 66 insertions(+), 17 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 10dcabb..16e7c59 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -7,7 +7,7 @@ from __future__ import unicode_literals
 import copy
 
 from lgr import text_type
-from lgr.tools.compare.utils import display_variant, VariantProperties
+from lgr.tools.compare.utils import display_action, display_variant, VariantProperties
 from lgr.utils import format_cp
 
 
@@ -61,7 +61,7 @@ def compare_things(first, second, name, is_set=False, format_fct=text_type,
             return """
 {} values differ:
 {}
-""".format(name.capitalize(), compare_sets(first, second, format_fct))
+""".format(name.capitalize(), compare_sets(first, second, format_fct, show_same))
         else:
             return """
 {} values differ:
@@ -89,6 +89,8 @@ def diff_version(first, second, show_same=False):
     output = ''
 
     # Check that none of the object is None before processing
+    if first is None and second is None:
+        return output
     if first is None:
         output += "\nFirst LGR has no version"
     if second is None:
@@ -117,6 +119,8 @@ def diff_description(first, second, show_same=False):
     output = ''
 
     # Check that none of the object is None before processing
+    if first is None and second is None:
+        return output
     if first is None:
         output += "\nFirst LGR has no description"
     if second is None:
@@ -216,13 +220,17 @@ def diff_char(first, second, show_same=True):
     variant_first = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in first.get_variants()}
     variant_second = {VariantProperties(v.cp, v.type, v.when, v.not_when, v.comment) for v in second.get_variants()}
 
-    if not show_same and \
-                    first.comment == second.comment and first.tags == second.tags and variant_first == variant_second:
-        return output
+    # The order of tags is not significant
+    tags_first = sorted(set(first.tags))
+    tags_second = sorted(set(second.tags))
 
     output += compare_things(first.comment, second.comment, "comment",
                              show_same=show_same)
-    output += compare_things(first.tags, second.tags, "tags",
+    output += compare_things(tags_first, tags_second, "tags",
+                             show_same=show_same)
+    output += compare_things(first.when, second.when, "when",
+                             show_same=show_same)
+    output += compare_things(first.not_when, second.not_when, "not-when",
                              show_same=show_same)
 
     output += compare_things(variant_first, variant_second, "variants", True,
@@ -241,12 +249,39 @@ def diff_actions(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    actions_1 = [a.disp for a in lgr1.actions]
-    actions_2 = [a.disp for a in lgr2.actions]
-    return compare_things(set(actions_1), set(actions_2), "actions", True,
+    return compare_things(set(lgr1.actions), set(lgr2.actions), "actions", True,
+                          lambda actions: ", ".join(map(display_action, actions)),
                           show_same=show_same)
 
 
+def diff_definitions(names_1, xml_1, names_2, xml_2, name, show_same=False):
+    """
+    Diff named elements and their definitions.
+
+    :param names_1: Names of the elements in the first LGR.
+    :param xml_1: XML definitions of the elements in the first LGR.
+    :param names_2: Names of the elements in the second LGR.
+    :param xml_2: XML definitions of the elements in the second LGR.
+    :param name: Name of the elements to compare.
+    :param show_same: Show result even if they are identical.
+    :return: Text comparison.
+    """
+    output = compare_things(set(names_1), set(names_2), name, True,
+                            show_same=show_same)
+
+    definitions_1 = dict(zip(names_1, xml_1))
+    definitions_2 = dict(zip(names_2, xml_2))
+    for key in sorted(set(definitions_1) & set(definitions_2)):
+        if definitions_1[key] != definitions_2[key]:
+            output += """
+Definitions of '{}' in {} differ:
+First LGR: '{}'.
+Second LGR: '{}'.
+""".format(key, name, definitions_1[key], definitions_2[key])
+
+    return output
+
+
 def diff_rules(lgr1, lgr2, show_same=False):
     """
     Diff two rule lists.
@@ -256,8 +291,8 @@ def diff_rules(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    return compare_things(set(lgr1.rules), set(lgr2.rules), "rules", True,
-                          show_same=show_same)
+    return diff_definitions(lgr1.rules, lgr1.rules_xml, lgr2.rules, lgr2.rules_xml, "rules",
+                            show_same=show_same)
 
 
 def diff_classes(lgr1, lgr2, show_same=False):
@@ -269,8 +304,8 @@ def diff_classes(lgr1, lgr2, show_same=False):
     :param show_same: Show result even if they are identical.
     :return: Text comparison.
     """
-    return compare_things(set(lgr1.classes), set(lgr2.classes), "classes", True,
-                          show_same=show_same)
+    return diff_definitions(lgr1.classes, lgr1.classes_xml, lgr2.classes, lgr2.classes_xml, "classes",
+                            show_same=show_same)
 
 
 def diff_lgrs(lgr1, lgr2, show_same=True):
@@ -308,7 +343,7 @@ def diff_lgrs(lgr1, lgr2, show_same=True):
     second_cps = {c.cp for c in lgr2.repertoire}
 
     output += compare_things(first_cps, second_cps, "repertoire", True,
-                             format_fct=lambda c: " ".join(map(format_cp, c)),
+                             format_fct=lambda c: ", ".join(map(format_cp, c)),
                              show_same=show_same)
 
     output += """
@@ -339,9 +374,9 @@ def diff_lgrs(lgr1, lgr2, show_same=True):
 ** Compare WLE **
 """
 
-    output += diff_actions(lgr1, lgr2)
-    output += diff_rules(lgr1, lgr2)
-    output += diff_classes(lgr1, lgr2)
+    output += diff_actions(lgr1, lgr2, show_same=show_same)
+    output += diff_rules(lgr1, lgr2, show_same=show_same)
+    output += diff_classes(lgr1, lgr2, show_same=show_same)
 
     return output
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index 0fa5cc6..fa47206 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -27,6 +27,20 @@ def display_variant(variant):
         variant.comment)
 
 
+def display_action(action):
+    """
+    Nicely display an action.
+
+    :param action: The action to display.
+    """
+    output = "Action {}: match={} - not-match={}".format(action.disp, action.match, action.not_match)
+    for name in ('any_variant', 'all_variants', 'only_variants'):
+        variants = getattr(action, name)
+        if variants is not None:
+            output += " - {}={}".format(name.replace('_', '-'), ' '.join(sorted(variants)))
+    return output
+
+
 def compare_objects(first, second, cmp_fct):
     """
     Compare two objects, possibly None.
-- 
2.43.0


From 502762a960760f474330ef5c1b7750de5d86afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 27/64] fix: union and intersection cope with references listed
 twice

---
 lgr/tools/compare/intersect.py |  2 +-
 lgr/tools/compare/union.py     | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index a8e0f01..1060d23 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -128,7 +128,7 @@ def intersect_reference_manager(first, second):
             ids.setdefault(ref['value'], ref_id)
 
     return (output,
-            {ref_id: None for ref_id in first if ref_id not in output},
+            {ref_id: ids.get(ref['value']) for ref_id, ref in first.items()},
             {ref_id: ids.get(ref['value']) for ref_id, ref in second.items()})
 
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 7d1fc59..00547dc 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -121,25 +121,27 @@ def union_reference_manager(first, second):
     :param first: The first object to union.
     :param second: The other object to union.
     :return: (new reference manager object,
+              dictionary of the new identifiers for the references of the first object,
               dictionary of the new identifiers for the references of the second object).
     """
     output = ReferenceManager()
     ids = {}
 
+    first_mapping = {}
     for ref_id, ref in first.items():
-        ids.setdefault(ref['value'], ref_id)
+        # A reference may be there several times
+        first_mapping[ref_id] = ids.setdefault(ref['value'], ref_id)
         output.add_reference(ref['value'], comment=ref.get('comment'), ref_id=ref_id)
 
-    mapping = {}
+    second_mapping = {}
     for ref_id, ref in second.items():
         value = ref['value']
         if value not in ids:
             new_id = None if ref_id in output else ref_id
             ids[value] = output.add_reference(value, comment=ref.get('comment'), ref_id=new_id)
-        if ids[value] != ref_id:
-            mapping[ref_id] = ids[value]
+        second_mapping[ref_id] = ids[value]
 
-    return output, mapping
+    return output, first_mapping, second_mapping
 
 
 def union_char(lgr, first, second):
@@ -255,12 +257,13 @@ def union_lgrs(lgr1, lgr2):
     lgr = LGR(name=name, metadata=metadata)
 
     # No need to copy references, they are new objects
-    (references, ref_mapping) = union_reference_manager(lgr1.reference_manager,
-                                                        lgr2.reference_manager)
+    (references, ref_mapping_1, ref_mapping_2) = union_reference_manager(lgr1.reference_manager,
+                                                                         lgr2.reference_manager)
     lgr.reference_manager = references
 
-    # Rename the entities of the second LGR, and the rules and classes defined differently in both LGRs
-    rename_entities(lgr2, {}, {}, ref_mapping)
+    # Rename the references, and the rules and classes defined differently in both LGRs
+    rename_entities(lgr1, {}, {}, ref_mapping_1)
+    rename_entities(lgr2, {}, {}, ref_mapping_2)
     (rules, classes) = conflicting_names(lgr1, lgr2)
     rules = distinct_names(rules, lgr1, lgr2)
     classes = distinct_names(classes, lgr1, lgr2)
-- 
2.43.0


From 426aa31a41a0496256328c46aa10f6a3ec4a6c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:21 +0000
Subject: [PATCH 28/64] fix: harmonization knows all the mappings of the code
 points shared by both LGRs

---
 lgr/tools/harmonize.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lgr/tools/harmonize.py b/lgr/tools/harmonize.py
index f7ca2ff..ce02672 100644
--- a/lgr/tools/harmonize.py
+++ b/lgr/tools/harmonize.py
@@ -37,7 +37,9 @@ def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
 
     for lgr in (h_lgr_1, h_lgr_2):
         if lgr.metadata.version is not None:
-            lgr.metadata.version.comment = lgr.metadata.version.comment or '' + ' - Harmonized'
+            comment = lgr.metadata.version.comment or ''
+            if not comment.endswith(' - Harmonized'):
+                lgr.metadata.version.comment = comment + ' - Harmonized'
 
     # New variants from RZ-LGR - harmonize each of the LGR with the RZ-LGR for the given script
     if rz_lgr is not None:
@@ -46,6 +48,17 @@ def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
         rz_lgr_work = deepcopy(rz_lgr)
         harmonize(h_lgr_2, rz_lgr_work, _copy=False)
 
+    # Code points that only one of the LGRs has will not be touched
+    lgr_1_repertoire = {c.cp for c in h_lgr_1.repertoire}
+    lgr_2_repertoire = {c.cp for c in h_lgr_2.repertoire}
+    lgr_1_cp_review = lgr_1_repertoire - lgr_2_repertoire
+    lgr_2_cp_review = lgr_2_repertoire - lgr_1_repertoire
+
+    # Ensure LGRs to be harmonized are symmetric and transitive, so that all the mappings of a shared code point
+    # are known
+    populate_lgr(h_lgr_1)
+    populate_lgr(h_lgr_2)
+
     # Perform harmonization between the 2 LGRs
     lgr_1_repertoire = {c.cp for c in h_lgr_1.repertoire}
     lgr_2_repertoire = {c.cp for c in h_lgr_2.repertoire}
@@ -87,6 +100,4 @@ def harmonize(lgr_1, lgr_2, rz_lgr=None, _copy=True):
     populate_lgr(h_lgr_1)
     populate_lgr(h_lgr_2)
 
-    not_touched_cp = lgr_1_repertoire ^ lgr_2_repertoire
-
-    return h_lgr_1, h_lgr_2, (lgr_1_repertoire & not_touched_cp, lgr_2_repertoire & not_touched_cp)
+    return h_lgr_1, h_lgr_2, (lgr_1_cp_review, lgr_2_cp_review)
-- 
2.43.0


From 7f6150389857dc04b543804cffb6ca68129a0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 29/64] fix: validation runs every RFC 7940 test, and works
 without a Unicode database or with an unset target version

---
 lgr/core.py                   |  3 +++
 lgr/validate/miscellaneous.py | 13 +++++++++----
 lgr/validate/rebuild_lgr.py   |  5 +++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index bf1c72c..50e0352 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -2054,6 +2054,9 @@ class LGR(object):
         """
         in_script = True
         cp_scripts = set()
+        if self.unicode_database is None:
+            # Scripts are not known
+            return in_script, cp_scripts
         lgr_scripts = self.metadata.get_scripts()
         for cp in codepoints:
             try:
diff --git a/lgr/validate/miscellaneous.py b/lgr/validate/miscellaneous.py
index 5834e6c..1477103 100644
--- a/lgr/validate/miscellaneous.py
+++ b/lgr/validate/miscellaneous.py
@@ -36,11 +36,13 @@ def check_lgr_data(lgr):
                     logger.error("Bad variant type '%s'", t)
                     success = False
                     lgr.notify_error('data_variant_type')
-        lgr.notify_tested('data_variant_type')
+    lgr.notify_tested('data_variant_type')
 
     # Check that all chars exist in the given Unicode version
-    unidb_version = lgr.unicode_database.get_unicode_version()
-    if unidb_version == lgr.metadata.unicode_version:
+    unidb_version = None
+    if lgr.unicode_database is not None:
+        unidb_version = lgr.unicode_database.get_unicode_version()
+    if unidb_version is not None and unidb_version == lgr.metadata.unicode_version:
         lgr.notify_tested('valid_unicode_version')
         # First add all code points to the set "to_check"
         to_check = set()
@@ -115,7 +117,10 @@ def check_miscellaneous(lgr, options):
         'repertoire': []
     }
 
-    success = check_lgr_rules(lgr) and check_lgr_data(lgr)
+    # Run both so that all tests are executed
+    success_rules = check_lgr_rules(lgr)
+    success_data = check_lgr_data(lgr)
+    success = success_rules and success_data
 
     logger.info("Miscellaneous test done")
 
diff --git a/lgr/validate/rebuild_lgr.py b/lgr/validate/rebuild_lgr.py
index ef438a6..5179773 100644
--- a/lgr/validate/rebuild_lgr.py
+++ b/lgr/validate/rebuild_lgr.py
@@ -30,8 +30,9 @@ def rebuild_lgr(lgr, options):
     # Local import to prevent import cycles
     from lgr.core import LGR
 
-    unicode_version = options.get('unicode_version',
-                                  lgr.metadata.unicode_version)
+    unicode_version = options.get('unicode_version', None)
+    if unicode_version is None:
+        unicode_version = lgr.metadata.unicode_version
     validating_repertoire = options.get('validating_repertoire', None)
 
     result = {
-- 
2.43.0


From f7cc0238df58a664fdaab43d7a77bd99c4f345cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 30/64] fix: merging an LGR set renames exactly what it should,
 maps all references, closes the variants, and compares versions as numbers

---
 lgr/tools/compare/intersect.py |   4 +-
 lgr/tools/compare/union.py     |   4 +-
 lgr/tools/compare/utils.py     |  15 ++
 lgr/tools/merge_set.py         | 246 ++++++++++++++++++---------------
 4 files changed, 151 insertions(+), 118 deletions(-)

diff --git a/lgr/tools/compare/intersect.py b/lgr/tools/compare/intersect.py
index 1060d23..554ca20 100644
--- a/lgr/tools/compare/intersect.py
+++ b/lgr/tools/compare/intersect.py
@@ -10,7 +10,7 @@ from datetime import date
 from io import BytesIO
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import compare_objects, conflicting_names, rename_entities
+from lgr.tools.compare.utils import compare_objects, conflicting_names, greatest_version, rename_entities
 
 from lgr.char import CharBase
 from lgr.core import LGR
@@ -102,7 +102,7 @@ def intersect_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             greatest_version)
 
     return output
 
diff --git a/lgr/tools/compare/union.py b/lgr/tools/compare/union.py
index 00547dc..a0b8650 100644
--- a/lgr/tools/compare/union.py
+++ b/lgr/tools/compare/union.py
@@ -10,7 +10,7 @@ from datetime import date
 from io import BytesIO
 from collections import OrderedDict
 
-from lgr.tools.compare.utils import (compare_objects, conflicting_names,
+from lgr.tools.compare.utils import (compare_objects, conflicting_names, greatest_version,
                                      distinct_names, rename_entities)
 
 from lgr.core import LGR
@@ -109,7 +109,7 @@ def union_metadata(first, second):
 
     output.unicode_version = compare_objects(first.unicode_version,
                                              second.unicode_version,
-                                             max)
+                                             greatest_version)
 
     return output
 
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index fa47206..a07c904 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -2,6 +2,7 @@
 """
 utils.py - Definition of utility functions.
 """
+import re
 from collections import OrderedDict, namedtuple
 
 from lxml import etree
@@ -70,6 +71,20 @@ def compare_objects(first, second, cmp_fct):
     return cmp_fct(first, second)
 
 
+def greatest_version(first, second):
+    """
+    Get the greatest of two version numbers.
+
+    :param first: First version, as a string.
+    :param second: Second version, as a string.
+    :return: The greatest version.
+
+    >>> greatest_version('6.3.0', '15.1.0')
+    '15.1.0'
+    """
+    return max(first, second, key=lambda version: [int(number) for number in re.findall(r'\d+', version)])
+
+
 def _referred_names(xml):
     """
     List the names of the rules and of the classes an XML fragment refers to.
diff --git a/lgr/tools/merge_set.py b/lgr/tools/merge_set.py
index 749bfaa..e0f2acd 100644
--- a/lgr/tools/merge_set.py
+++ b/lgr/tools/merge_set.py
@@ -22,7 +22,7 @@ from collections import OrderedDict
 from lgr.exceptions import LGRFormatException, CharInvalidContextRule
 from lgr.core import LGR, DEFAULT_ACTIONS
 from lgr.metadata import Metadata, Version, Description
-from lgr.tools.compare.utils import compare_objects
+from lgr.tools.compare.utils import compare_objects, greatest_version
 from lgr.parser.xml_parser import XMLParser
 from lgr.parser.xml_serializer import serialize_lgr_xml
 from lgr.utils import let_user_choose
@@ -30,7 +30,56 @@ from lgr.utils import let_user_choose
 logger = logging.getLogger(__name__)
 
 MSR_2_RULES = ['leading-combining-mark']
-MSR_NEGATIVE_LOOK_AHEAD = r'(?!' + '|'.join(MSR_2_RULES) + r')'
+
+
+def prefix_name(name, script):
+    """
+    Prefix the name of a rule with the script, or with 'Common-' for the MSR rules.
+
+    :param name: The name, None or empty if there is none
+    :param script: The LGR script
+    :return: The prefixed name, None if there is no name
+    """
+    if not name:
+        return None
+    return '{}-{}'.format('Common' if name in MSR_2_RULES else script, name)
+
+
+def prefix_attribute(attribute, prefix, xml):
+    """
+    Prefix the values of an attribute in an XML text.
+
+    :param attribute: The name of the attribute
+    :param prefix: Function returning the prefixed value from the value
+    :param xml: The XML text
+    :return: Updated XML text
+    """
+    return re.sub(r'(?<![\w-]){}="([^"]*)"'.format(attribute),
+                  lambda match: '{}="{}"'.format(attribute, prefix(match.group(1))), xml)
+
+
+def map_references(references, script, ref_mapping):
+    """
+    Get the references in the merged LGR.
+
+    :param references: The reference ids in an LGR of the set
+    :param script: The LGR script
+    :param ref_mapping: The reference mapping from base LGR to new LGR
+    :return: The list of reference ids in the merged LGR
+    """
+    return list(OrderedDict.fromkeys(ref_mapping.get(script, {}).get(ref, ref) for ref in references))
+
+
+def map_xml_references(xml, script, ref_mapping):
+    """
+    Replace the references in an XML text by the references in the merged LGR.
+
+    :param xml: The XML text
+    :param script: The LGR script
+    :param ref_mapping: The reference mapping from base LGR to new LGR
+    :return: Updated XML text
+    """
+    return prefix_attribute('ref', lambda refs: ' '.join(map_references(refs.split(), script, ref_mapping)), xml)
 
 
 def get_script(lgr):
@@ -104,6 +153,7 @@ def merge_metadata(lgr_set):
     logger.debug("Merge metadata")
 
     output = Metadata()
+    output.unicode_version = None
 
     output.version = merge_version(lgr_set)
     output.description = merge_description(lgr_set)
@@ -122,7 +172,7 @@ def merge_metadata(lgr_set):
 
         output.unicode_version = compare_objects(output.unicode_version,
                                                  metadata.unicode_version,
-                                                 max)
+                                                 greatest_version)
 
     output.scopes = list(scopes.keys())
     output.languages = list(languages.keys())
@@ -168,19 +218,11 @@ def rename_action(action, action_xml, script):
     """
     new_action = copy.deepcopy(action)
     if action.match:
-        if action.match not in MSR_2_RULES:
-            new_action.match = script + '-' + action.match
-        else:
-            # Prefix MSR action with 'Common-'
-            new_action.match = 'Common-' + action.match
-        action_xml = action_xml.replace(action.match, new_action.match)
+        new_action.match = prefix_name(action.match, script)
+        action_xml = prefix_attribute('match', lambda name: prefix_name(name, script), action_xml)
     if action.not_match:
-        if action.not_match not in MSR_2_RULES:
-            new_action.not_match = script + '-' + action.not_match
-        else:
-            # Prefix MSR action with 'Common-'
-            new_action.not_match = 'Common-' + action.not_match
-        action_xml = action_xml.replace(action.not_match, new_action.not_match)
+        new_action.not_match = prefix_name(action.not_match, script)
+        action_xml = prefix_attribute('not-match', lambda name: prefix_name(name, script), action_xml)
 
     return new_action, action_xml
 
@@ -204,43 +246,35 @@ def merge_actions(lgr, script, merged_lgr, ref_mapping):
         merged_action, merged_action_xml = rename_action(action, action_xml, script)
 
         # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in action.references]
-        merged_action.references = new_ref
-        merged_action_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_action_xml)
+        merged_action.references = map_references(action.references, script, ref_mapping)
+        merged_action_xml = map_xml_references(merged_action_xml, script, ref_mapping)
 
         merged_lgr.actions.append(merged_action)
         merged_lgr.actions_xml.append(merged_action_xml)
 
 
-def rename_rule(rule, rule_xml, script):
+def rename_rule(rule, rule_xml, script, name_script=None):
     """
     Prefix rule name or reference with script
 
     :param rule: The rule
     :param rule_xml: The rule XML
     :param script:  The LGR script
+    :param name_script: The script to use for the rule name, if not the LGR script
     :return: Updated rule name, updated rule XML
     """
-    if rule.name not in MSR_2_RULES:
-        new_rule_name = script + '-' + rule.name
-        rule_xml = re.sub(r'name="' + rule.name + '"', r'name="{}-{}"'.format(script, rule.name), rule_xml)
-    else:
-        # Prefix MSR rule with 'Common-'
-        new_rule_name = 'Common-' + rule.name
-    rule_xml = re.sub(r'name="' + rule.name + '"', r'name="' + new_rule_name + '"', rule_xml)
-
-    # do not replace references in MSR Rules that keep unchanged
-    # the following sub should replace all references in rules content, ignore tags with ':'
-    rule_xml = re.sub(r'by-ref="' + MSR_NEGATIVE_LOOK_AHEAD + r'([^"]+)"', r'by-ref="{}-\1"'.format(script), rule_xml)
-    # Prefix MSR references with 'Common-'
-    rule_xml = re.sub(r'by-ref="(' + '|'.join(MSR_2_RULES) + r')"', r'by-ref="Common-\1"'.format(script), rule_xml)
-    # Rule can contain (anonymous) classes, so also deal with from-tag
-    rule_xml = re.sub(r'from-tag="([^:"]+)"', r'from-tag="{}-\1"'.format(script), rule_xml)
+    new_rule_name = prefix_name(rule.name, name_script or script)
+    rule_xml = prefix_attribute('name', lambda name: prefix_name(name, name_script or script), rule_xml)
+
+    # replace all references in rules content
+    rule_xml = prefix_attribute('by-ref', lambda name: prefix_name(name, script), rule_xml)
+    # Rule can contain (anonymous) classes, so also deal with from-tag, ignore tags with ':'
+    rule_xml = prefix_attribute('from-tag', lambda tag: tag if ':' in tag else script + '-' + tag, rule_xml)
 
     return new_rule_name, rule_xml
 
 
-def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
+def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None, name_script=None):
     """
     Merge rules from LGR set.
 
@@ -249,6 +283,7 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
     :param merged_lgr: The merged LGR
     :param ref_mapping: The reference mapping from base LGR to new LGR
     :param specific: Merge only a specific rule
+    :param name_script: The script to use for the rule name, if not the LGR script
     """
     logger.debug("Merge rules")
 
@@ -256,14 +291,12 @@ def merge_rules(lgr, script, merged_lgr, ref_mapping, specific=None):
         if specific and rule.name != specific:
             continue
         rule_xml = lgr.rules_xml[lgr.rules.index(rule.name)]
-        merged_rule_name, merged_rule_xml = rename_rule(rule, rule_xml, script)
+        merged_rule_name, merged_rule_xml = rename_rule(rule, rule_xml, script, name_script)
         if merged_rule_name in merged_lgr.rules:
             # MSR-2
             continue
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in rule.references]
-        merged_rule_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_rule_xml)
+        merged_rule_xml = map_xml_references(merged_rule_xml, script, ref_mapping)
 
         merged_lgr.rules.append(merged_rule_name)
         merged_lgr.rules_xml.append(merged_rule_xml)
@@ -280,10 +313,10 @@ def rename_class(classe, class_xml, script):
     """
     new_class_name = script + '-' + classe.name
 
-    class_xml = re.sub(r'name="([^:"]+)"', r'name="{}-\1"'.format(script), class_xml)
-    class_xml = re.sub(r'by-ref="([^"]+)"', r'by-ref="{}-\1"'.format(script), class_xml)
+    class_xml = prefix_attribute('name', lambda name: script + '-' + name, class_xml)
+    class_xml = prefix_attribute('by-ref', lambda name: script + '-' + name, class_xml)
     # ignore tags containing ':'
-    class_xml = re.sub(r'from-tag="([^:"]+)"', r'from-tag="{}-\1"'.format(script), class_xml)
+    class_xml = prefix_attribute('from-tag', lambda tag: tag if ':' in tag else script + '-' + tag, class_xml)
 
     return new_class_name, class_xml
 
@@ -306,9 +339,7 @@ def merge_classes(lgr, script, merged_lgr, ref_mapping):
         class_xml = lgr.classes_xml[lgr.classes.index(classe.name)]
         merged_class_name, merged_class_xml = rename_class(classe, class_xml, script)
 
-        # Replace references in python object and XML
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in classe.references]
-        merged_class_xml = re.sub(r'(?<!by-)ref="([^"]+)"', r'ref="{}"'.format(" ".join(new_ref)), merged_class_xml)
+        merged_class_xml = map_xml_references(merged_class_xml, script, ref_mapping)
 
         merged_lgr.classes.append(merged_class_name)
         merged_lgr.classes_xml.append(merged_class_xml)
@@ -332,6 +363,7 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
         else:
             script_extensions = []
         new_tags = set(script + '-' + x if ':' not in x else x for x in char.tags) | set(script_extensions)
+        new_refs = map_references(char.references, script, ref_mapping)
         existing_char = None
         if char in merged_chars:
             existing_char = merged_chars[char]
@@ -340,40 +372,29 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             # same cp already in LGR
             existing_char.comment = let_user_choose(existing_char.comment, char.comment)
             existing_char.tags = list(set.union(set(existing_char.tags), set(new_tags)))
-            existing_char.references = set.union(set(existing_char.references), set(char.references))
+            existing_char.references = list(OrderedDict.fromkeys(list(existing_char.references) + new_refs))
 
             # if 2 scripts have different variants on a character, we need to add the variants for script 1 as
             # variant on script 2 to keep transitivity (e.g. b is variant of a in script 1, c is variant of a in
             # script 2, we need to set b as c variant and conversely). We do that after processing all code points
             # as the code point for the new variant may not be in the merged LGR in the current iteration.
-            new_v1 = set.difference(set(char.get_variants()), set(existing_char.get_variants()))
-            new_v2 = set.difference(set(existing_char.get_variants()), set(char.get_variants()))
-            # remove cp itself to avoid error with reflexive variants
-            for v in new_v1:
-                if v.cp == existing_char.cp:
-                    new_v1.remove(v)
-                    break
-            for v in new_v2:
-                if v.cp == existing_char.cp:
-                    new_v2.remove(v)
-                    break
-            if new_v1 and new_v2:
-                new_variants.append((new_v1, new_v2))
+            # cp itself is ignored to avoid error with reflexive variants
+            new_v1 = set(v.cp for v in char.get_variants()) - {char.cp}
+            new_v2 = set(v.cp for v in existing_char.get_variants()) - {char.cp}
+            if new_v1 - new_v2 and new_v2 - new_v1:
+                new_variants.append({char.cp} | new_v1 | new_v2)
 
             # add new variants to current code point
-            # do not keep new_v1 as reflexive variant may have been removed
-            for v in set.difference(set(char.get_variants()), set(existing_char.get_variants())):
-                new_ref = [ref_mapping[script].get(x, x) for x in v.references]
-                new_when = None
-                new_not_when = None
-                if v.when:
-                    new_when = script + '-' + v.when
-                if v.not_when:
-                    new_not_when = script + '-' + v.not_when
+            existing_variants = set((v.cp, v.when, v.not_when) for v in existing_char.get_variants())
+            for v in char.get_variants():
+                new_when = prefix_name(v.when, script)
+                new_not_when = prefix_name(v.not_when, script)
+                if (v.cp, new_when, new_not_when) in existing_variants:
+                    # existing variants comment or references are not updated as it is not really important
+                    continue
                 merged_lgr.add_variant(existing_char.cp, v.cp, variant_type='blocked',
                                        when=new_when, not_when=new_not_when,
-                                       comment=v.comment, ref=new_ref)
-                # existing variants comment or references are not updated as it is not really important
+                                       comment=v.comment, ref=map_references(v.references, script, ref_mapping))
 
             # if when or not-when:
             #  - if existing cp has no concurrent rule or conversely, keep the rule as is (i.e. if existing cp has
@@ -384,68 +405,64 @@ def merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts):
             existing_when = existing_char.when
             existing_not_when = existing_char.not_when
             # retrieve WLE names
-            for other_script in reversed(previous_scripts):
+            for other_script in ['Common'] + list(reversed(previous_scripts)):
                 if existing_char.when:
-                    existing_when = re.sub(r'^{}-'.format(other_script), '', existing_when)
+                    existing_when = re.sub(r'^{}-'.format(re.escape(other_script)), '', existing_when)
                 if existing_char.not_when:
-                    existing_not_when = re.sub(r'^{}-'.format(other_script), '', existing_not_when)
+                    existing_not_when = re.sub(r'^{}-'.format(re.escape(other_script)), '', existing_not_when)
+
+            if (char.when and existing_not_when) or (char.not_when and existing_when):
+                # a code point cannot have both
+                raise CharInvalidContextRule(char.cp, char.when or char.not_when)
 
             if char.when:
                 if not existing_when:
-                    existing_char.when = script + '-' + char.when
-                elif existing_when == char.when:
-                    existing_char.when = script + '-' + existing_char.when
-                    # add a merged rule
-                    matching_script = re.sub(r'-{}$'.format(existing_when), '', existing_char.when)
-                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_when)
-                else:
+                    existing_char.when = prefix_name(char.when, script)
+                elif existing_when != char.when:
                     raise CharInvalidContextRule(char.cp, char.when)
+                elif char.when not in MSR_2_RULES:
+                    # add a merged rule
+                    matching_script = script + '-' + existing_char.when[:-len('-' + char.when)]
+                    existing_char.when = script + '-' + existing_char.when
+                    merge_rules(lgr, script, merged_lgr, ref_mapping, specific=char.when, name_script=matching_script)
 
             if char.not_when:
                 if not existing_not_when:
-                    existing_char.not_when = script + '-' + char.not_when
-                elif existing_not_when == char.not_when:
-                    existing_char.not_when = script + '-' + existing_char.not_when
-                    # add a merged rule
-                    matching_script = re.sub(r'-{}$'.format(existing_not_when), '', existing_char.not_when)
-                    merge_rules(lgr, matching_script, merged_lgr, ref_mapping, specific=existing_not_when)
-                else:
+                    existing_char.not_when = prefix_name(char.not_when, script)
+                elif existing_not_when != char.not_when:
                     raise CharInvalidContextRule(char.cp, char.not_when)
+                elif char.not_when not in MSR_2_RULES:
+                    # add a merged rule
+                    matching_script = script + '-' + existing_char.not_when[:-len('-' + char.not_when)]
+                    existing_char.not_when = script + '-' + existing_char.not_when
+                    merge_rules(lgr, script, merged_lgr, ref_mapping, specific=char.not_when, name_script=matching_script)
 
             continue
 
         # add new cp in LGR
-        when = None
-        not_when = None
-        if char.when:
-            when = script + '-' + char.when
-        if char.not_when:
-            not_when = script + '-' + char.not_when
-
-        new_ref = [ref_mapping.get(script, {}).get(x, x) for x in char.references]
-        merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_ref,
+        merged_lgr.add_cp(char.cp, comment=char.comment, ref=new_refs,
                           tag=list(new_tags),
-                          when=when, not_when=not_when)
+                          when=prefix_name(char.when, script), not_when=prefix_name(char.not_when, script))
         for v in char.get_variants():
-            when = None
-            not_when = None
-            if v.when:
-                when = script + '-' + v.when
-            if v.not_when:
-                not_when = script + '-' + v.not_when
-
-            new_ref = [ref_mapping[script].get(r, r) for r in v.references]
             merged_lgr.add_variant(char.cp, v.cp, variant_type='blocked',
-                                   comment=v.comment, ref=new_ref,
-                                   when=when, not_when=not_when)
+                                   comment=v.comment, ref=map_references(v.references, script, ref_mapping),
+                                   when=prefix_name(v.when, script), not_when=prefix_name(v.not_when, script))
 
     # handle transitivity for variants that differ between scripts
-    for var1_list, var2_list in new_variants:
-        for v1 in var1_list:
-            for v2 in var2_list:
-                merged_lgr.add_variant(v1.cp, v2.cp, variant_type='blocked',
-                                       comment='New variant for merge to keep transitivity')
-                merged_lgr.add_variant(v2.cp, v1.cp, variant_type='blocked',
+    while new_variants:
+        variant_set = new_variants.pop()
+        overlapping = [other for other in new_variants if other & variant_set]
+        if overlapping:
+            # the code points of sets that have something in common are all variants of each other
+            new_variants = [other for other in new_variants if other not in overlapping]
+            new_variants.append(variant_set.union(*overlapping))
+            continue
+        for cp in sorted(variant_set):
+            if cp not in merged_lgr.repertoire:
+                continue
+            existing_variants = [v.cp for v in merged_lgr.get_char(cp).get_variants()]
+            for variant_cp in sorted(variant_set - {cp} - set(existing_variants)):
+                merged_lgr.add_variant(cp, variant_cp, variant_type='blocked',
                                        comment='New variant for merge to keep transitivity')
 
 
@@ -482,10 +499,11 @@ def merge_lgr_set(lgr_set, name):
         lgr.expand_ranges()
 
         merge_references(lgr, script, merged_lgr, ref_mapping)
-        merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
         merge_actions(lgr, script, merged_lgr, ref_mapping)
         merge_rules(lgr, script, merged_lgr, ref_mapping)
         merge_classes(lgr, script, merged_lgr, ref_mapping)
+        # after the rules, as this may add a rule that refers to them
+        merge_chars(lgr, script, merged_lgr, ref_mapping, previous_scripts)
         previous_scripts.append(script)
 
     # XXX As the created merged_lgr is not a valid Python LGR object,
-- 
2.43.0


From df196043990f91281f31bb6c46d132b88aea786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 31/64] fix: collision reports give each collision once, never
 for labels outside the LGR, and work without a TLD file, with annotations or
 with cached indexes

---
 lgr/tools/diff_collisions.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/lgr/tools/diff_collisions.py b/lgr/tools/diff_collisions.py
index 8785e83..1ff85ec 100644
--- a/lgr/tools/diff_collisions.py
+++ b/lgr/tools/diff_collisions.py
@@ -91,7 +91,8 @@ def _generate_indexes(lgr, labels: List, tlds=None, keep=False, quiet=False, cac
 
     _get_indexes(labels)
     if cached_indexes:
-        _get_indexes(cached_indexes, is_cache=True)
+        # remove labels already processed as we do not want duplicates in label_indexes lists
+        _get_indexes({l: l_idx for l, l_idx in cached_indexes.items() if l not in labels}, is_cache=True)
     if tlds:
         # remove labels from tlds as we do not want duplicated in label_indexes lists
         _get_indexes(tlds - set(labels), is_tld=True)
@@ -266,12 +267,10 @@ def _get_new_variants(new_labels, old_labels):
 
 def dump_collisions(colliding1, cb, colliding2=None, **kwargs):
     idx = 0
-    list2 = colliding2
     for l1 in colliding1:
         idx += 1
-        if list2 is None:
-            # do not display the same collision permuted
-            list2 = colliding1[idx:]
+        # do not display the same collision permuted
+        list2 = colliding1[idx:] if colliding2 is None else colliding2
         for l2 in list2:
             if l1 != l2:
                 yield cb(l1, l2, **kwargs)
@@ -305,8 +304,10 @@ def _write_complete_output(labels, label_indexes, tlds=None):
     tlds = tlds or set()
     for idx, collisions in label_indexes.items():
         yield f"\n## Index '{cp_to_ulabel(idx)}' ##\n"
-        colliding_labels = [l for l in collisions if l['label'] in labels]
-        colliding_tlds = [l for l in collisions if l['label'] in tlds]
+        # a label only known as a variant of another one is not in the LGR
+        primaries = [l for l in collisions if l['cat'] != VARIANT]
+        colliding_labels = [l for l in primaries if l['label'] in labels]
+        colliding_tlds = [l for l in primaries if l['label'] in tlds]
 
         # do not output anything if there is not at least 2 primaries colliding
         if len(colliding_labels) > 1:
@@ -532,8 +533,10 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
     from lgr.tools.annotate import annotate
 
     if with_annotations:
+        # the input is read twice
+        labels_input = list(labels_input)
         yield "# Validity #\n\n"
-        for res in annotate(lgr, deepcopy(labels_input)):
+        for res in annotate(lgr, labels_input):
             yield res
         yield "\n"
 
@@ -545,17 +548,18 @@ def basic_collision(lgr, labels_input, tlds_input, with_annotations=False):
         else:
             label_errors.append("{}: {}".format(label, error))
 
-    tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
-    for err in errors:
-        yield err
+    tlds = set()
+    if tlds_input:
+        tlds, errors = _read_tlds(tlds_input, lgr.unicode_database)
+        for err in errors:
+            yield err
 
     yield "# Collisions #\n\n"
     has_one = False
-    if tlds_input:
-        in_tld = labels & tlds
-        for label in sorted(in_tld):
-            has_one = True
-            yield "{}: is a TLD\n".format(label)
+    in_tld = labels & tlds
+    for label in sorted(in_tld):
+        has_one = True
+        yield "{}: is a TLD\n".format(label)
 
     # only keep label without collision for a full dump
     label_indexes, not_in_lgr = _generate_indexes(lgr, labels, tlds=tlds, keep=False, quiet=True)
-- 
2.43.0


From 22627deeab90c6537537e577683ac05712aef1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 32/64] fix: lgr_collision.py starts and reports the labels
 that are not in the LGR

---
 tools/lgr_collision.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/lgr_collision.py b/tools/lgr_collision.py
index cbc9e16..f1d6425 100755
--- a/tools/lgr_collision.py
+++ b/tools/lgr_collision.py
@@ -35,8 +35,6 @@ def main():
     parser.add_common_args()
     parser.add_argument('-g', '--generate', action='store_true',
                         help='Generate variants')
-    parser.add_argument('-l', '--libs', metavar='LIBS',
-                        help='ICU libraries', required=True)
     parser.add_argument('-s', '--set', metavar='SET FILE',
                         help='Filepath to the set of reference labels',
                         required=True)
@@ -69,7 +67,11 @@ def main():
         write_output("Check label '%s'" % label)
         label_cp = tuple([ord(c) for c in label])
         label_disp = format_cp(label_cp)
-        label_index = compute_label_index(lgr, label_cp)
+        try:
+            label_index = compute_label_index(lgr, label_cp)
+        except NotInLGR:
+            write_output("Label '%s' [%s] not in LGR" % (label, label_disp))
+            continue
 
         if label_index in ref_label_indexes:
             ref_label_cp = ref_label_indexes[label_index]
-- 
2.43.0


From 2f47b3faf6615f613dd71873bcb1ce7bbba85f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:52 +0000
Subject: [PATCH 33/64] fix: legacy table parsers skip a malformed line with
 its variants, ignore comments and byte order marks, and read multi-digit
 references, versions and dates

---
 lgr/parser/heuristic_parser.py |  8 ++++----
 lgr/parser/line_parser.py      | 11 ++++++++---
 lgr/parser/parser.py           |  3 ++-
 lgr/parser/rfc3743_parser.py   | 15 ++++++++++-----
 lgr/parser/rfc4290_parser.py   |  5 ++++-
 5 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index d8401e9..d7bbe36 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -33,7 +33,7 @@ class HeuristicParser(LGRParser):
         if hasattr(self.source, "read"):
             self._find_parser(self.source)
         else:
-            with io.open(self.source, 'r', encoding='utf-8') as rule_file:
+            with io.open(self.source, 'r', encoding='utf-8-sig') as rule_file:
                 self._find_parser(rule_file)
 
         return self.lgr_parser.validate_document(schema)
@@ -46,7 +46,7 @@ class HeuristicParser(LGRParser):
         is_str = True
         if not isinstance(first_line, str):
             is_str = False
-            first_line = first_line.decode('utf-8')
+            first_line = first_line.decode('utf-8-sig')
         if self._is_lgr(first_line):
             self.lgr_parser = XMLParser(self.source, **self.kwargs)
         else:
@@ -67,7 +67,7 @@ class HeuristicParser(LGRParser):
             if not is_str:
                 if hasattr(rule_file, "seek"):
                     rule_file.seek(0)
-                return io.StringIO(rule_file.read().decode('utf-8'))
+                return io.StringIO(rule_file.read().decode('utf-8-sig'), newline=None)
             if hasattr(self.source, "seek"):
                 self.source.seek(0)
             return self.source
@@ -76,7 +76,7 @@ class HeuristicParser(LGRParser):
         # we have to do the splitlines because some files have \r as line separator
         for line in [ll for l in rule_file for ll in l.splitlines()]:
             if not is_str:
-                line = line.decode('utf-8')
+                line = line.decode('utf-8-sig')
             # remove comments
             line = line.split('#')[0].strip()
             if RFC3743_REGEX.match(line) and not RFC4290_REGEX.match(line):
diff --git a/lgr/parser/line_parser.py b/lgr/parser/line_parser.py
index cf4f15a..f870b40 100644
--- a/lgr/parser/line_parser.py
+++ b/lgr/parser/line_parser.py
@@ -16,6 +16,8 @@ logger = logging.getLogger(__name__)
 
 UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]{4,6})')
 
+MAX_CODEPOINT = 0x10FFFF
+
 
 class LineParser(LGRParser):
 
@@ -37,11 +39,10 @@ class LineParser(LGRParser):
         for line in rule_file:
             line_num += 1
 
-            line = line.strip()
+            # Remove comments
+            line = line.split('#', 1)[0].strip()
             if len(line) == 0:
                 continue
-            if line[0] == '#':
-                continue
 
             codepoints = []
             for cp in UNICODE_CODEPOINT_RE.finditer(line):
@@ -51,6 +52,10 @@ class LineParser(LGRParser):
                     logger.error("Invalid code point '%s' at line %d",
                                  cp, line_num)
 
+            if any(cp > MAX_CODEPOINT for cp in codepoints):
+                logger.error("Invalid code point '%s' at line %d", line, line_num)
+                continue
+
             try:
                 self._lgr.add_cp(codepoints)
             except LGRException as exc:
diff --git a/lgr/parser/parser.py b/lgr/parser/parser.py
index 72eb127..7f231a5 100644
--- a/lgr/parser/parser.py
+++ b/lgr/parser/parser.py
@@ -81,7 +81,8 @@ class LGRParser(object):
         if hasattr(self.source, "read"):
             self._parse_doc(self.source)
         else:
-            with io.open(self.source, 'r', encoding='utf-8') as rule_file:
+            # ignore the byte order mark if any
+            with io.open(self.source, 'r', encoding='utf-8-sig') as rule_file:
                 self._parse_doc(rule_file)
 
         return self._lgr
diff --git a/lgr/parser/rfc3743_parser.py b/lgr/parser/rfc3743_parser.py
index d295f09..58c07d1 100644
--- a/lgr/parser/rfc3743_parser.py
+++ b/lgr/parser/rfc3743_parser.py
@@ -15,13 +15,14 @@ from lgr.utils import format_cp
 
 logger = logging.getLogger(__name__)
 
-REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d)\s+(?P<value>[^#]+)\s*(?:#\s*(?P<comment>.*))?')
-VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
+REFERENCE_RE = re.compile(r'Reference\s+(?P<ref_id>\d+)\s+(?P<value>[^#]+?)\s*(?:#\s*(?P<comment>.*))?$')
+VERSION_RE = re.compile(r'Version\s+(?P<version_no>\d+)\s+(?P<date>\d{8})\s*(?:#\s*(?P<comment>.*))?')
 
 # RFC3743 defines a code point without the "U+" notation,
 # however some files use the "U+" prefix.
 # Try to support both.
-UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d(,\d)*)\))?')
+UNICODE_CODEPOINT_RE = re.compile(r'(?P<sequence>((?:U\+)?(?P<codepoint>[0-9a-fA-F]{4,6}) ?)+)(\((?P<references>\d+(,\d+)*)\))?')
+MAX_CODEPOINT = 0x10FFFF
 
 
 class RFC3743Parser(LGRParser):
@@ -76,9 +77,10 @@ class RFC3743Parser(LGRParser):
                 comment = version.group('comment')
 
                 try:
+                    # date is YYYYMMDD in RFC3743
+                    self._lgr.metadata.set_date('-'.join((date[:4], date[4:6], date[6:])), force=self.force)
                     self._lgr.metadata.version = Version(version_no,
                                                          comment=comment)
-                    self._lgr.metadata.date = date
                 except LGRException:
                     logger.error("Invalid version '%s' on line %d",
                                  line, line_num)
@@ -100,6 +102,7 @@ class RFC3743Parser(LGRParser):
                 self._lgr.add_cp(codepoints, ref=references, force=self.force)
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char, line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
@@ -168,7 +171,9 @@ def parse_char(char):
     """
     codepoints = []
     for match in UNICODE_CODEPOINT_RE.finditer(char):
-        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split(' ')]
+        cp_or_sequence = [int(cp.replace('U+', ''), 16) for cp in match.group('sequence').split()]
+        if any(cp > MAX_CODEPOINT for cp in cp_or_sequence):
+            raise ValueError(match.group('sequence'))
         references = match.group('references')
 
         ref_list = []
diff --git a/lgr/parser/rfc4290_parser.py b/lgr/parser/rfc4290_parser.py
index b2a1fc5..64db5e1 100644
--- a/lgr/parser/rfc4290_parser.py
+++ b/lgr/parser/rfc4290_parser.py
@@ -16,6 +16,8 @@ logger = logging.getLogger(__name__)
 
 UNICODE_CODEPOINT_RE = re.compile(r'U\+([0-9a-fA-F]{4,6})')
 
+MAX_CODEPOINT = 0x10FFFF
+
 
 class RFC4290Parser(LGRParser):
     def unicode_version(self):
@@ -61,6 +63,7 @@ class RFC4290Parser(LGRParser):
             except ValueError:
                 logger.error("Invalid character '%s' at line %d", char,
                              line_num)
+                continue
             except LGRException as exc:
                 logger.error("Cannot add code point '%s' at line %d: %s",
                              format_cp(codepoints),
@@ -100,7 +103,7 @@ def parse_char(char):
     chars = char.split('-')
     for c in chars:
         codepoint_re = UNICODE_CODEPOINT_RE.match(c)
-        if codepoint_re is not None:
+        if codepoint_re is not None and int(codepoint_re.group(1), 16) <= MAX_CODEPOINT:
             codepoints.append(int(codepoint_re.group(1), 16))
         else:
             raise ValueError(c)
-- 
2.43.0


From c69f3f9eb48fe96374519e4bd8d26421891e8700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:29 +0000
Subject: [PATCH 34/64] fix: hiding mixed-script variants keeps common and
 inherited code points, never mixes other scripts, and finds other scripts
 after sequences

---
 lgr/core.py                         |  9 ++++-----
 lgr/mixed_scripts_variant_filter.py | 21 ++++++++++++++-------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index 50e0352..cccd42a 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1829,12 +1829,11 @@ class LGR(object):
                 # the variant code point from the label.
                 variant_label = label_prefix + var.cp + tuple(label[len(char):])
 
-                if hide_mixed_script_variants:
+                if hide_mixed_script_variants and not mixed_script_filter.cp_in_base_scripts(var.cp):
                     if first_call and mixed_script_filter.cp_in_other_scripts(var.cp):
-                        rule_logger.debug("Variant script is eligible for non mixed-scripts", format_cp(var.cp))
-                        script_filter = mixed_script_filter.get_filter_for_other_script(
-                            self.unicode_database.get_script(var.cp[0]))
-                    elif not mixed_script_filter.cp_in_base_scripts(var.cp):
+                        rule_logger.debug("Variant %s script is eligible for non mixed-scripts", format_cp(var.cp))
+                        script_filter = mixed_script_filter.get_filter_for_other_script(var.cp)
+                    if not script_filter.cp_in_base_scripts(var.cp):
                         rule_logger.debug("Variant %s contains mixed-scripts", format_cp(var.cp))
                         continue
                 # Test when/not-when rules - Use variant label
diff --git a/lgr/mixed_scripts_variant_filter.py b/lgr/mixed_scripts_variant_filter.py
index c6a2ed2..54b20e7 100644
--- a/lgr/mixed_scripts_variant_filter.py
+++ b/lgr/mixed_scripts_variant_filter.py
@@ -28,6 +28,9 @@ def get_permitted_scripts(base_scripts: Set[str]):
 
 
 class BaseMixedScriptsVariantFilter:
+    # Code points of these scripts can be used along with any script
+    IGNORED_SCRIPTS = {'Common', 'Inherited'}
+
     def __init__(self, unidb: UnicodeDatabase) -> None:
         super().__init__()
         self.unidb = unidb
@@ -36,7 +39,7 @@ class BaseMixedScriptsVariantFilter:
     def cp_in_scripts(self, cp: Tuple[ord], scripts) -> bool:
         for char in cp:
             script = self.unidb.get_script(char)
-            if script not in scripts:
+            if script not in scripts and script not in self.IGNORED_SCRIPTS:
                 return False
         return True
 
@@ -48,8 +51,6 @@ class BaseMixedScriptsVariantFilter:
 
 
 class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
-    IGNORED_SCRIPTS = {'Common', 'Inherited'}
-
     def __init__(self, label: Tuple[int], repertoire: Repertoire, unidb: UnicodeDatabase) -> None:
         super().__init__(unidb)
         self.base_scripts: Set[str] = self._get_base_scripts(label)
@@ -66,7 +67,14 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
                 scripts.add(self.unidb.get_script(c))
         return get_permitted_scripts(scripts)
 
-    def get_filter_for_other_script(self, script):
+    def get_filter_for_other_script(self, cp: Tuple[int]):
+        """
+        Get the filter to use after a variant in another script than the ones of the label.
+
+        :param cp: The variant code points.
+        :return: The filter for the script of the variant.
+        """
+        script = next(s for s in map(self.unidb.get_script, cp) if s not in self.IGNORED_SCRIPTS)
         f = BaseMixedScriptsVariantFilter(self.unidb)
         f.base_scripts = get_permitted_scripts({script})
         return f
@@ -80,9 +88,9 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
         :return: A set of scripts to keep for computation when filtering cross-script variants.
         """
         scripts = None
-        current_label = label
 
-        for c in label:
+        for idx, c in enumerate(label):
+            current_label = label[idx:]
             scripts_for_char = set()
             try:
                 chars_from_prefix = repertoire.get_chars_from_prefix(c, only_variants=True)
@@ -103,7 +111,6 @@ class MixedScriptsVariantFilter(BaseMixedScriptsVariantFilter):
                 scripts = set(scripts_for_char)
             else:
                 scripts.intersection_update(scripts_for_char)
-            current_label = current_label[1:]
 
         if scripts is None:
             return set()
-- 
2.43.0


From f353c8eea8634713593e094a6d7ea96b1c0e3541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:32 +0000
Subject: [PATCH 35/64] fix: read A-labels holding supplementary code points as
 these code points

---
 lgr/tools/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index 2473c9a..a4f8b56 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -209,10 +209,12 @@ def _parse_label_input(s, idna_decoder=lambda x: x.encode('utf-8').decode('idna'
     [171]
     """
     if s.lower().startswith('xn--'):
+        # decoders may return supplementary code points as surrogate pairs
+        label = idna_decoder(s.lower()).encode('utf-16', 'surrogatepass').decode('utf-16')
         if as_cp:
-            return [ord(c) for c in idna_decoder(s.lower())]
+            return [ord(c) for c in label]
         else:
-            return idna_decoder(s.lower())
+            return label
     elif ' ' in s or 'U+' in s.upper():
         try:
             label_cp = parse_codepoint_input(s)
-- 
2.43.0


From cda87534d0d0f922f405dac0e190300952e63a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 36/64] fix: a label of Han and kana is Japanese whatever
 neutral characters come first

---
 lgr/tools/utils.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index a4f8b56..b85787a 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -291,20 +291,14 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
 
     script = unidb.get_script(label[0], alpha4=True)
 
-    if script == 'Hani':
-        script = 'Hani'
-        # We keep looking on the other characters to determine if the script can be Jpan.
-        for character in label[1:]:
-            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
-                script = 'Jpan'
-                break
-
-    elif script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
+    rest = label[1:]
+    if script in [COMMON_SCRIPT, INHERITED_SCRIPT]:
         # Since the first character is from the Common or Inherited
         # scripts, we keep looking to see if the rest match another one.
-        for character in label[1:]:
+        for i, character in enumerate(label[1:]):
             script = unidb.get_script(character, alpha4=True)
             if script not in [COMMON_SCRIPT, INHERITED_SCRIPT]:
+                rest = label[i + 2:]
                 break
         if script in [COMMON_SCRIPT, INHERITED_SCRIPT] and any(character in label for character in ['〆','ー']):
             # There is a specific exception for U+3006 and U+30FC.
@@ -313,6 +307,13 @@ def get_rz_label_script(label: str, unidb: UnicodeDatabase) -> str | None:
             # of Jpan.
             script = 'Jpan'
 
+    if script == 'Hani':
+        # We keep looking on the other characters to determine if the script can be Jpan.
+        for character in rest:
+            if unidb.get_script(character, alpha4=True) in ['Hira', 'Kana']:
+                script = 'Jpan'
+                break
+
     if script in ['Hira', 'Kana']:
         script = 'Jpan'
     elif script == 'Hang':
-- 
2.43.0


From 5d4ec236f1976b506bfabc66f1ede74736bfc0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:31 +0000
Subject: [PATCH 37/64] fix: the script codes Cyrs, Hanb and Jamo stand for the
 Unicode scripts they are written with

---
 lgr/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lgr/utils.py b/lgr/utils.py
index f419b21..c86a994 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -157,12 +157,18 @@ def script_iso15924_to_unicode(script):
     """
     if script == 'Aran':
         return ['Arab']
+    elif script == 'Cyrs':
+        return ['Cyrl']
     elif script == 'Geok':
         return ['Geor']
+    elif script == 'Hanb':
+        return ['Bopo', 'Hani']
     elif script in ['Hans', 'Hant']:
         return ['Hani']
     elif script == 'Hrkt':
         return ['Hira', 'Kana']
+    elif script == 'Jamo':
+        return ['Hang']
     elif script == 'Jpan':
         return ['Hani', 'Hira', 'Kana']
     elif script == 'Kore':
-- 
2.43.0


From 1830ea2fc331368bea6d945a791e604ac10c28fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 38/64] fix: a three letter language code alone is its two
 letter code too

---
 lgr/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lgr/utils.py b/lgr/utils.py
index c86a994..0d344ba 100644
--- a/lgr/utils.py
+++ b/lgr/utils.py
@@ -210,10 +210,10 @@ def let_user_choose(first, second, separator='|'):
     return '{0!s}{1!s}{2!s}'.format(first, separator, second)
 
 def tag_to_language_script(tag, use_suppress_script=False):
-    if '-' in tag:
-        # replace 3 char language isocode by 2 char isocode
-        # XXX Assume lang-script format
-        splitted = tag.split('-', 1)
+    # replace 3 char language isocode by 2 char isocode
+    # XXX Assume lang or lang-script format
+    splitted = tag.split('-', 1)
+    if len(splitted) > 1 or len(tag) == 3:
         lang = splitted[0]
         try:
             lang_lookup = languages.lookup(lang)
-- 
2.43.0


From 189384dfeba263701498f7312f1fb2d22047016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 39/64] fix: annotate names the first action of an LGR when it
 invalidates a label

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 6247d92..b4982e9 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -13,7 +13,7 @@ logger = logging.getLogger(__name__)
 
 def _out_valid_label(lgr, label, eligible, label_invalid_parts, disp, action_idx):
     yield "%s: %s\n" % (label, disp)
-    if not eligible and action_idx > 0:
+    if not eligible and action_idx >= 0:
         yield " Rule %s: %s\n" % (action_idx, lgr.effective_actions[action_idx])
     for cp_not_in_lgr, rules in label_invalid_parts:
         yield " Code point {cp} {reason}\n".format(
-- 
2.43.0


From b727bcbf8ddf208e2bda19a726e5ed5b039be897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:04 +0000
Subject: [PATCH 40/64] fix: annotate against an LGR set tells the collisions
 of the label, not those among the set labels

---
 lgr/tools/annotate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index b4982e9..5e62d8e 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -81,8 +81,9 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 # with any existing delegated labels (and any of their variants, whether blocked or allocatable).
                 if label in filtered_set:
                     collision = 'Label is in the LGR set labels'
-                indexes = get_collisions(lgr, filtered_set + [label], quiet=False)
-                if len(indexes) > 0:
+                # Labels of the set may collide with each other, only consider the collisions of this label
+                indexes = get_collisions(lgr, filtered_set + [label], quiet=True)
+                if any(c['label'] == label for collisions in indexes.values() for c in collisions):
                     collision = 'Label collides with the LGR set labels'
 
             out = disp
-- 
2.43.0


From 15b6b4376fbe77feb6cdccb84960e0517892e092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 41/64] fix: lgr_validate generates variants and accepts set
 labels of other scripts of the set

---
 tools/lgr_validate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/lgr_validate.py b/tools/lgr_validate.py
index 44b99d1..e70bb87 100755
--- a/tools/lgr_validate.py
+++ b/tools/lgr_validate.py
@@ -84,7 +84,7 @@ def check_label(lgr, label, generate_variants=False, merged_lgr=None, set_labels
         if generate_variants:
             write_output("Variants:")
             summary, labels = lgr.compute_label_disposition_summary(label_cp)
-            for (variant_cp, var_disp, _, _, _) in labels:
+            for (variant_cp, var_disp, _, _, _, _) in labels:
                 variant_u = cp_to_ulabel(variant_cp)
                 write_output("\tVariant %s [%s]" % (variant_u, format_cp(variant_cp)))
                 write_output("\t- Disposition: '%s'" % var_disp)
@@ -112,13 +112,13 @@ def main():
     filtered_set_labels = []
     if len(args.lgr_xml) > 1:
         write_output("# The following labels from the set labels are invalid\n")
-        for __, label, valid, error in read_labels(parser.set_labels, parser.script_lgr.unicode_database):
+        for __, label, valid, error in read_labels(parser.set_labels, parser.merged_lgr.unicode_database):
             if not valid:
                 write_output("{}: {}\n".format(label, error))
             else:
                 label_cp = tuple([ord(c) for c in label])
-                if not parser.script_lgr._test_preliminary_eligibility(label_cp)[0]:
-                    write_output("%s: Not in LGR %s\n" % label, parser.script_lgr)
+                if not parser.merged_lgr._test_preliminary_eligibility(label_cp)[0]:
+                    write_output("%s: Not in LGR %s\n" % (label, parser.merged_lgr))
                 else:
                     filtered_set_labels.append(label)
         write_output("# End of filtered set labels\n\n")
-- 
2.43.0


From 5c81c4bb22f0427ecae2b86ac54246364bf435a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:29 +0000
Subject: [PATCH 42/64] fix: lgr_cli tells the first default action from an
 action of the LGR

---
 tools/lgr_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lgr_cli.py b/tools/lgr_cli.py
index c09c2fb..90e54be 100755
--- a/tools/lgr_cli.py
+++ b/tools/lgr_cli.py
@@ -26,7 +26,7 @@ def check_label(lgr, label, invalid, test):
     (eligible, label_parts, label_invalid_parts, disp, action_idx, logs) = lgr.test_label_eligible(label_cp)
     logger.info("- Eligible: %s", eligible)
     logger.info("- Disposition: %s", disp)
-    is_default_action = action_idx > len(lgr.actions)
+    is_default_action = action_idx >= len(lgr.actions)
     actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
     action_name = "DefaultAction" if is_default_action else "Action"
     logger.info("- Action triggered: %s[%d]", action_name, actual_index)
@@ -54,7 +54,7 @@ def check_label(lgr, label, invalid, test):
                                                            "not in repertoire" if rules is None else ','.join(rules))
                                       for cp, rules in variant_invalid_parts)))
 
-            is_default_action = action_idx > len(lgr.actions)
+            is_default_action = action_idx >= len(lgr.actions)
             actual_index = action_idx if not is_default_action else action_idx - len(lgr.actions)
             action_name = "DefaultAction" if is_default_action else "Action"
             logger.info("\t- Action triggered: %s[%d]", action_name, actual_index)
-- 
2.43.0


From 95c43cf85f891cdaab1d103f811e0c8ee7c87d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:13 +0000
Subject: [PATCH 43/64] fix: annotate against an LGR set names the action of
 the script LGR that was triggered

---
 lgr/tools/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/annotate.py b/lgr/tools/annotate.py
index 5e62d8e..7e76a5f 100644
--- a/lgr/tools/annotate.py
+++ b/lgr/tools/annotate.py
@@ -91,5 +91,5 @@ def lgr_set_annotate(lgr, script_lgr, set_labels_input, labels_input):
                 # TODO do we need to change disp to invalid???
                 out = '{} - {}'.format(disp, collision)
 
-            for l in _out_valid_label(lgr, label, eligible, label_invalid_parts, out, action_idx):
+            for l in _out_valid_label(script_lgr, label, eligible, label_invalid_parts, out, action_idx):
                 yield l
-- 
2.43.0


From ded3729a6a8112a62bbad3a17479b03ddc6de8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:19 +0000
Subject: [PATCH 44/64] fix: an empty class does not prevent repeated choices
 from matching in look-behinds

---
 lgr/classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lgr/classes.py b/lgr/classes.py
index 6c6f9c2..b7b598c 100644
--- a/lgr/classes.py
+++ b/lgr/classes.py
@@ -17,8 +17,9 @@ logger = logging.getLogger(__name__)
 # So use this char to avoid any collision.
 TAG_CLASSNAME_PREFIX = "#__internal_tag_"
 
-# Regular expression which never matches, used for the empty set
-EMPTY_SET_PATTERN = '(?!)'
+# Regular expression which never matches, used for the empty set.
+# It is a code point long, as '(?!)' prevents ICU from matching other choices in repetitions within look-behinds
+EMPTY_SET_PATTERN = '(?:(?=\\u0001)\\u0002)'
 
 
 def set_to_rvalue(cp_set, as_set):
-- 
2.43.0


From 2b551fcd61d242c6cfb08bbda3a44abe83c1b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:34 +0000
Subject: [PATCH 45/64] fix: variant set reports: when and not-when missing
 from the IDN table are reported as missing

---
 lgr/tools/idn_review/variant_sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 42a9c05..395a57a 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -203,7 +203,7 @@ class VariantComparison:
             return self.IdnRuleCheck.DIFFERENT
         if (idn_wle['when'] or idn_wle['not-when']) and not ref_wle['when'] and not ref_wle['not-when']:
             return self.IdnRuleCheck.LESS_CONSERVATIVE
-        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when']) or ref_wle['not-when']:
+        if not idn_wle['when'] and not idn_wle['not-when'] and (ref_wle['when'] or ref_wle['not-when']):
             return self.IdnRuleCheck.MISSING
         return self.IdnRuleCheck.DIFFERENT
 
-- 
2.43.0


From 4aad2ca122bb136e9fc154ec8a5f4d9d94d84f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:50 +0000
Subject: [PATCH 46/64] fix: variant set reports: several reflexive variants of
 a code point are all compared

---
 lgr/tools/idn_review/variant_sets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 395a57a..44e7203 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -417,7 +417,8 @@ class VariantSetsReport:
         variants = {}
         for var in char.get_variants():
             in_lgr = True
-            if var.cp in reversed_variants.get(char.cp, []):
+            # a code point may have several reflexive variants (contextual rules), which are their own reverse
+            if var.cp != char.cp and var.cp in reversed_variants.get(char.cp, []):
                 continue
             var_var = []
             try:
-- 
2.43.0


From 70926e0923226bd357c86b5dfaf26a745367570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:04 +0000
Subject: [PATCH 47/64] fix: variant set reports: missing sequences are looked
 for in ranges and outside the reference repertoire

---
 lgr/tools/idn_review/variant_sets.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index 44e7203..dbcb510 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -8,7 +8,7 @@ from collections import Counter
 from enum import Enum, auto
 from typing import Dict, List, Tuple, Set
 
-from lgr.char import Char, Variant, Repertoire
+from lgr.char import Char, CharBase, Variant, Repertoire
 from lgr.core import LGR
 from lgr.exceptions import NotInLGR, VariantAlreadyExists
 from lgr.tools.idn_review.utils import IdnReviewResult, cp_report
@@ -374,13 +374,14 @@ class VariantSetsReport:
             # check if a sequence is missing
             for cp in self.reference_lgr_variant_set:
                 if len(cp) > 1:
-                    in_idn_table = set(cp) & set(char for c in self.idn_repertoire for char in c.cp)
+                    in_idn_table = set(cp) & set(char for c in self.idn_repertoire.all_repertoire() for char in c.cp)
                     if in_idn_table:
                         for c in in_idn_table:
                             idn_cp = (c,)
                             if idn_cp in self.idn_repertoire:
                                 relevant_repertoire.add(idn_cp)
-                        missing_sequence = self.reference_lgr_repertoire.get_char(cp)
+                        # the sequence may be a variant that is not in the reference repertoire
+                        missing_sequence = CharBase.from_cp_or_sequence(cp)
                         break
 
         for cp in sorted(set(self.idn_table_variant_set) | set(self.reference_lgr_variant_set)):
-- 
2.43.0


From ca62590ce448db7ac8f88c7b0fabe05666e0589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:16 +0000
Subject: [PATCH 48/64] fix: variant set reports: additional code points leave
 out all the members of variant sets

---
 lgr/tools/idn_review/variant_sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/variant_sets.py b/lgr/tools/idn_review/variant_sets.py
index dbcb510..d52998e 100644
--- a/lgr/tools/idn_review/variant_sets.py
+++ b/lgr/tools/idn_review/variant_sets.py
@@ -474,8 +474,8 @@ def get_additional_codepoints(idn_table, idn_table_variant_sets, reference_lgr)
     Get code points from IDN table not in reference LGR that are not handled in the report (i.e. not in a variant set)
     """
     unidb = idn_table.unicode_database
-    variants_flat = set(zip(*[v for v in idn_table_variant_sets.values()]))
-    return cp_report(unidb, [char for char in idn_table.repertoire if
+    variants_flat = set(cp for variant_set in idn_table_variant_sets.values() for cp in variant_set)
+    return cp_report(unidb, [char for char in idn_table.repertoire.all_repertoire() if
                       char.cp not in variants_flat and char not in reference_lgr.repertoire])
 
 
-- 
2.43.0


From 495e596f83da498cdd2f190c4119a51319233b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 49/64] fix: IDN review of rules expands the ranges of the
 repertoires

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 455f5a7..1b25daf 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -275,7 +275,7 @@ class WholeLabelEvaluationRuleReport:
         self.reference_lgr_rule = reference_lgr_rule
         self.idn_table_context = idn_table_context
         self.reference_lgr_context = reference_lgr_context
-        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire)
+        self.idn_table_repertoire = set(c.cp for c in self.idn_table.repertoire.all_repertoire())
 
     def compare_wle(self) -> Tuple[IdnReviewResult, str]:
         # compare rule regex for rule equality
@@ -366,7 +366,7 @@ class WholeLabelEvaluationRulesCheck:
         self.has_multiple_digits_sets = nbr_digits > 10
 
         if self.reference_lgr:
-            for char in self.reference_lgr.repertoire:
+            for char in self.reference_lgr.repertoire.all_repertoire():
                 if char.when:
                     self.reference_lgr_context_rules.setdefault(char.when, set()).add(char.cp)
                 if char.not_when:
-- 
2.43.0


From a364f97c0cca4e4aa4aa1912a5f06034edc08052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 50/64] fix: IDN review of rules does not fail on labels ending
 with a sequence

---
 lgr/tools/idn_review/whole_label_evaluation_rules.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lgr/tools/idn_review/whole_label_evaluation_rules.py b/lgr/tools/idn_review/whole_label_evaluation_rules.py
index 1b25daf..c08c12d 100644
--- a/lgr/tools/idn_review/whole_label_evaluation_rules.py
+++ b/lgr/tools/idn_review/whole_label_evaluation_rules.py
@@ -401,6 +401,8 @@ class WholeLabelEvaluationRulesCheck:
     # TODO move method in core.py
     def check_label_cp_in_repertoire(self, label):
         result = False
+        if not label:
+            return True
         cp = label[0]
 
         try:
-- 
2.43.0


From ec2ff34b0ac543baa8c6d9c1e8ccb21865743557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 51/64] fix: textual form of rules keeps the order of code
 points and tells classes from code points

---
 lgr/matcher.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lgr/matcher.py b/lgr/matcher.py
index 9e38db1..b487eff 100644
--- a/lgr/matcher.py
+++ b/lgr/matcher.py
@@ -7,7 +7,7 @@ from __future__ import unicode_literals
 import logging
 
 from lgr.exceptions import LGRFormatException
-from lgr.utils import format_cp_collapsed
+from lgr.utils import format_cp
 from lgr.core import PROTOCOL_LABEL_MAX_LENGTH
 
 logger = logging.getLogger(__name__)
@@ -376,10 +376,11 @@ class CharMatcher(CountMatcher):
 
     def __str__(self):
         count = CountMatcher.get_pattern(self)
+        # the order of the code points is significant in a sequence
         if len(count) > 1:
-            return '({}){}'.format(format_cp_collapsed(self.cp_or_sequence), count)
+            return '({}){}'.format(format_cp(self.cp_or_sequence), count)
 
-        return format_cp_collapsed(self.cp_or_sequence)
+        return format_cp(self.cp_or_sequence)
 
     def __repr__(self):
         count = super(CharMatcher, self).get_pattern()
@@ -476,10 +477,11 @@ class ClassMatcher(CountMatcher):
 
     def __str__(self):
         count = CountMatcher.get_pattern(self)
+        # brackets: a class is not a sequence of code points
         if len(count) > 1:
-            return '({}){}'.format(self._cls, count)
+            return '([{}]){}'.format(self._cls, count)
 
-        return '{}'.format(self._cls)
+        return '[{}]'.format(self._cls)
 
     def __repr__(self):
         count = super(ClassMatcher, self).get_pattern()
-- 
2.43.0


From b0ec4fd93f57e527d2bf8d42da156e9f72b900b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:06 +0000
Subject: [PATCH 52/64] fix: IDN review does not report unrelated unknown
 language tags as exact match

---
 lgr/tools/idn_review/language_tag.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/language_tag.py b/lgr/tools/idn_review/language_tag.py
index 7538c17..c81ac0f 100644
--- a/lgr/tools/idn_review/language_tag.py
+++ b/lgr/tools/idn_review/language_tag.py
@@ -28,7 +28,9 @@ class LanguageTagReport:
         idn_language, idn_script = tag_to_language_script(self.idn_table_tag)
         ref_language, ref_script = tag_to_language_script(tag)
 
-        if idn_language == ref_language and idn_script == ref_script:
+        # unknown tags have neither language nor script
+        if self.idn_table_tag == tag or ((idn_language or idn_script) and
+                                         idn_language == ref_language and idn_script == ref_script):
             return IdnReviewResult.MATCH, "Exact match"
 
         idn_tag = tags.tag(self.idn_table_tag)
-- 
2.43.0


From 7ba86d77063c24482837d487475f3d8cecc8395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:21 +0000
Subject: [PATCH 53/64] fix: IDN review lists a code point once for a sequence
 repeating it

---
 lgr/tools/idn_review/repertoire.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/idn_review/repertoire.py b/lgr/tools/idn_review/repertoire.py
index 02b9400..b348cdb 100644
--- a/lgr/tools/idn_review/repertoire.py
+++ b/lgr/tools/idn_review/repertoire.py
@@ -95,7 +95,7 @@ def get_idn_cp_in_ref_seq(idn_table: LGR, reference_lgr: LGR, unidb: UnicodeData
     results = []
     for char in reference_lgr.repertoire.all_repertoire(include_sequences=True, include_ranges=False):
         if len(char) > 1:
-            for cp in char.cp:
+            for cp in dict.fromkeys(char.cp):  # a code point may be repeated
                 single_char = Char(cp)
                 if single_char not in reference_lgr.repertoire and single_char in idn_table.repertoire:
                     results.append({
-- 
2.43.0


From da3d3378772f12e513a356311da5847420b911fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:25 +0000
Subject: [PATCH 54/64] fix: populate an LGR whose variants are inside a range

---
 lgr/populate/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lgr/populate/__init__.py b/lgr/populate/__init__.py
index 044a6d1..a943c1f 100644
--- a/lgr/populate/__init__.py
+++ b/lgr/populate/__init__.py
@@ -6,6 +6,7 @@ from __future__ import unicode_literals
 
 import logging
 
+from lgr.char import RangeChar
 from lgr.exceptions import NotInLGR
 from lgr.validate.symmetry import check_symmetry
 from lgr.validate.transitivity import check_transitivity
@@ -21,6 +22,14 @@ def populate_lgr(lgr):
     :param lgr: The LGR to be populated.
     :return: Result of checks and summary as a string
     """
+    # A range cannot have variants: expand the ones that contain a variant code point
+    for a in lgr.repertoire:
+        for b in a.get_variants():
+            if b.cp in lgr.repertoire:
+                char = lgr.get_char(b.cp)
+                if isinstance(char, RangeChar):
+                    lgr.expand_range(char.first_cp, char.last_cp)
+
     # not in LGR variants
     for a in lgr.repertoire:
         for b in a.get_variants():
-- 
2.43.0


From a59ec0b3bb62a3e5492263e0ed926145fcd9c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:45 +0000
Subject: [PATCH 55/64] fix: list the tags of an LGR holding a nameless class

---
 lgr/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lgr/core.py b/lgr/core.py
index cccd42a..b5a7a2e 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -1452,7 +1452,7 @@ class LGR(object):
         prefix_len = len(TAG_CLASSNAME_PREFIX)
         out = []
         for clsname in self.classes_lookup:
-            if clsname.startswith(TAG_CLASSNAME_PREFIX):
+            if clsname is not None and clsname.startswith(TAG_CLASSNAME_PREFIX):
                 out.append(clsname[prefix_len:])
         return out
 
@@ -1519,7 +1519,7 @@ class LGR(object):
         prefix_len = len(TAG_CLASSNAME_PREFIX)
         out = {}
         for clsname, clz in self.classes_lookup.items():
-            if clsname.startswith(TAG_CLASSNAME_PREFIX):
+            if clsname is not None and clsname.startswith(TAG_CLASSNAME_PREFIX):
                 out[clsname[prefix_len:]] = clz
         return out
 
-- 
2.43.0


From c7a534edb2d058d4df69813e0562abfcee7cc3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:03 +0000
Subject: [PATCH 56/64] fix: blank content of a by-ref class is no content

---
 lgr/parser/xml_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index c71128d..59306e5 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -468,7 +468,7 @@ class XMLParser(LGRParser):
                         from_tag=elem.get('from-tag', None),
                         unicode_property=elem.get('property', None),
                         by_ref=elem.get('by-ref', None))
-            if len(elem) == 0 and elem.text:
+            if len(elem) == 0 and elem.text and elem.text.strip():
                 # No child, code point(s) defined in text
                 cls.add_codepoint(cp_or_sequence_from_class(elem))
             for child in elem:
-- 
2.43.0


From a94ba91b6c25e648a0a5d220dabadcf13268aac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:39 +0000
Subject: [PATCH 57/64] fix: tools without a Unicode database option can read
 an LGR

---
 lgr/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lgr/tools/utils.py b/lgr/tools/utils.py
index b85787a..49ef777 100644
--- a/lgr/tools/utils.py
+++ b/lgr/tools/utils.py
@@ -426,7 +426,7 @@ class LgrToolArgParser(argparse.ArgumentParser):
     def get_unidb(self):
         if not self.args:
             self.parse_args()
-        if self.args.libs and not self.unidb:
+        if getattr(self.args, 'libs', None) and not self.unidb:
             libpath, i18n_libpath, libver = self.args.libs.split('#')
             manager = UnicodeDataVersionManager()
             self.unidb = manager.register(None, libpath, i18n_libpath, libver)
-- 
2.43.0


From c717b818630848f7acdd77dbc4f0c81e38c69bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:50 +0000
Subject: [PATCH 58/64] fix: lgr_merge_set prints the merged LGR as text

---
 tools/lgr_merge_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lgr_merge_set.py b/tools/lgr_merge_set.py
index c403dd9..baf02b0 100755
--- a/tools/lgr_merge_set.py
+++ b/tools/lgr_merge_set.py
@@ -35,7 +35,7 @@ def main():
     merged_lgr, _ = merge_lgrs(args.lgr_set, name=args.name, rng=args.rng, unidb=parser.get_unidb())
     if not merged_lgr:
         return
-    print(serialize_lgr_xml(merged_lgr, pretty_print=True))
+    print(serialize_lgr_xml(merged_lgr, pretty_print=True, encoding='unicode', xml_declaration=False))
 
 
 if __name__ == '__main__':
-- 
2.43.0


From f2dac8267b53fb352993e6db008ac3f88e5900ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:01 +0000
Subject: [PATCH 59/64] fix: rules and classes laid out differently are not
 different

---
 lgr/tools/compare/diff.py  |  4 ++--
 lgr/tools/compare/utils.py | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lgr/tools/compare/diff.py b/lgr/tools/compare/diff.py
index 16e7c59..7f1d9e1 100644
--- a/lgr/tools/compare/diff.py
+++ b/lgr/tools/compare/diff.py
@@ -7,7 +7,7 @@ from __future__ import unicode_literals
 import copy
 
 from lgr import text_type
-from lgr.tools.compare.utils import display_action, display_variant, VariantProperties
+from lgr.tools.compare.utils import display_action, display_variant, normalize_definition, VariantProperties
 from lgr.utils import format_cp
 
 
@@ -272,7 +272,7 @@ def diff_definitions(names_1, xml_1, names_2, xml_2, name, show_same=False):
     definitions_1 = dict(zip(names_1, xml_1))
     definitions_2 = dict(zip(names_2, xml_2))
     for key in sorted(set(definitions_1) & set(definitions_2)):
-        if definitions_1[key] != definitions_2[key]:
+        if normalize_definition(definitions_1[key]) != normalize_definition(definitions_2[key]):
             output += """
 Definitions of '{}' in {} differ:
 First LGR: '{}'.
diff --git a/lgr/tools/compare/utils.py b/lgr/tools/compare/utils.py
index a07c904..1af16f6 100644
--- a/lgr/tools/compare/utils.py
+++ b/lgr/tools/compare/utils.py
@@ -99,6 +99,20 @@ def _referred_names(xml):
     return rules, classes
 
 
+def normalize_definition(xml):
+    """
+    Get the form of an XML definition which does not depend on the way it is laid out.
+
+    :param xml: XML text of a rule or a class.
+    :return: The same definition without formatting.
+    """
+    root = etree.fromstring(xml)
+    for elem in root.iter():
+        elem.text = ' '.join((elem.text or '').split())
+        elem.tail = ''
+    return etree.tostring(root, method='c14n')
+
+
 def conflicting_names(lgr1, lgr2):
     """
     List the names of the rules and of the classes which are defined differently in two LGRs,
@@ -109,7 +123,7 @@ def conflicting_names(lgr1, lgr2):
     :return: (set of rule names, set of class names).
     """
     def definitions(names, xml):
-        return dict(zip(names, xml))
+        return dict(zip(names, map(normalize_definition, xml)))
 
     rules1, rules2 = (definitions(l.rules, l.rules_xml) for l in (lgr1, lgr2))
     classes1, classes2 = (definitions(l.classes, l.classes_xml) for l in (lgr1, lgr2))
-- 
2.43.0


From 96a8cf119bb969f55435f0c29cf9bfc577cb5b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:28 +0000
Subject: [PATCH 60/64] fix: lgr_harmonize works on no unreadable LGR, and
 writes both results when the LGRs have the same file name

---
 tools/lgr_harmonize | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/lgr_harmonize b/tools/lgr_harmonize
index eaca2a0..15897ce 100755
--- a/tools/lgr_harmonize
+++ b/tools/lgr_harmonize
@@ -34,14 +34,21 @@ def main():
     if args.root_zone:
         rz_lgr = parse_lgr(args.root_zone, args.rng, unidb)
 
+    if first_lgr is None or second_lgr is None or (args.root_zone and rz_lgr is None):
+        logger.error("Harmonization requires all LGRs to be valid")
+        return
+
     first_h, second_h, (log_first, log_second) = harmonize(first_lgr, second_lgr, rz_lgr)
 
     for lgr in (first_h, second_h):
         xml = serialize_lgr_xml(lgr)
+        suffix = '_harmonized'
+        if lgr is second_h and first_h.name == second_h.name:
+            suffix += '_2'
         if lgr.name.endswith('.xml'):
-            name = lgr.name[:-4] + '_harmonized.xml'
+            name = lgr.name[:-4] + suffix + '.xml'
         else:
-            name = lgr.name + '_harmonized'
+            name = lgr.name + suffix
         with open(os.path.join(args.output, name), 'wb') as f:
             f.write(xml)
 
-- 
2.43.0


From c6eae3754997f9db602367ccd32617c110236962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 61/64] fix: forget the cached rule patterns when the Unicode
 database of an LGR is replaced

---
 lgr/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lgr/core.py b/lgr/core.py
index b5a7a2e..15d11f3 100644
--- a/lgr/core.py
+++ b/lgr/core.py
@@ -198,6 +198,8 @@ class LGR(object):
                            "when LGR Unicode version is '%s'",
                            unidb_version, self.metadata.unicode_version)
         self._unicode_database = unidb
+        # The cached patterns depend on the Unicode properties
+        self._clear_pattern_caches()
 
     def add_reference(self, value, comment=None, ref_id=None):
         """
@@ -2152,7 +2154,7 @@ class LGR(object):
         """
         Forget the patterns cached by the rules.
 
-        The patterns depend on the rules, classes and tags of the LGR, so they have to be
+        The patterns depend on the rules, classes, tags and Unicode database of the LGR, so they have to be
         computed again when one of those is modified.
         """
         for rule in self.rules_lookup.values():
-- 
2.43.0


From c208d220ec2ec6d8fe9827b10b520f1c309cc08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:31 +0000
Subject: [PATCH 62/64] fix: processing instructions in an LGR document are
 skipped

---
 lgr/parser/xml_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lgr/parser/xml_parser.py b/lgr/parser/xml_parser.py
index 59306e5..2afd601 100644
--- a/lgr/parser/xml_parser.py
+++ b/lgr/parser/xml_parser.py
@@ -104,7 +104,8 @@ class XMLParser(LGRParser):
     # Skip comment, as we do not care.
     PARSER_OPTIONS = {'resolve_entities': False,
                       'strip_cdata': False,
-                      'remove_comments': True}
+                      'remove_comments': True,
+                      'remove_pis': True}
 
     def __init__(self, *args, **kwargs):
         super(XMLParser, self).__init__(*args, **kwargs)
-- 
2.43.0


From c7eba760e00435b45d70556a980c6287bed63dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:43 +0000
Subject: [PATCH 63/64] fix: the IDN table review tool skips the LGR files it
 cannot parse

---
 tools/lgr_idn_table_review.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/lgr_idn_table_review.py b/tools/lgr_idn_table_review.py
index ed8f2b0..c5eb159 100755
--- a/tools/lgr_idn_table_review.py
+++ b/tools/lgr_idn_table_review.py
@@ -44,6 +44,7 @@ def main():
         ref_lgr = parse_lgr(reference_lgr_file, args.rng, unidb)
         if not ref_lgr:
             logger.error("Cannot parse LGR file %s, skip it", reference_lgr_file)
+            continue
         reference_lgrs.append(ref_lgr)
 
     idn_tables = []
@@ -52,6 +53,7 @@ def main():
         lgr = parse_lgr(idn_table, args.rng, unidb)
         if not lgr:
             logger.error("Cannot parse LGR file %s, skip it", idn_table)
+            continue
         idn_tables.append(lgr)
 
     os.makedirs(args.output, exist_ok=True)
-- 
2.43.0


From c221bae07d57c830c16e6c5878410e378d708abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:25 +0000
Subject: [PATCH 64/64] fix: the heuristic parser passes the Unicode database
 on and answers the Unicode version before parsing

---
 lgr/parser/heuristic_parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lgr/parser/heuristic_parser.py b/lgr/parser/heuristic_parser.py
index d7bbe36..cd989dc 100644
--- a/lgr/parser/heuristic_parser.py
+++ b/lgr/parser/heuristic_parser.py
@@ -27,17 +27,22 @@ class HeuristicParser(LGRParser):
         self.lgr_parser = None
 
     def unicode_version(self):
+        self._open_and_find_parser()
+
         return self.lgr_parser.unicode_version()
 
     def validate_document(self, schema=None):
+        self._open_and_find_parser()
+
+        return self.lgr_parser.validate_document(schema)
+
+    def _open_and_find_parser(self):
         if hasattr(self.source, "read"):
             self._find_parser(self.source)
         else:
             with io.open(self.source, 'r', encoding='utf-8-sig') as rule_file:
                 self._find_parser(rule_file)
 
-        return self.lgr_parser.validate_document(schema)
-
     def _find_parser(self, rule_file):
         if self.lgr_parser:
             return
@@ -104,6 +109,7 @@ class HeuristicParser(LGRParser):
         :param rule_file: Content of the rule, as a file-like object.
         """
         self._find_parser(rule_file)
+        self.lgr_parser.unicode_database = self._unicode_database
 
         self._lgr = self.lgr_parser.parse_document()
 
-- 
2.43.0

