From cfa3165cc987b6716b75d4c6af4506ea15adf7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 01/63] fix: get_or_new_section returns the existing section
 whatever the case of the name

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1db299e..01384b9 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -271,7 +271,7 @@ class MetatabDoc(object):
 
     def get_or_new_section(self, name, params=None):
         """Create a new section or return an existing one of the same name"""
-        if name not in self.sections:
+        if name.lower() not in self.sections:
             self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         return self.sections[name.lower()]
-- 
2.43.0


From 9f8255ad2cd9569f48d82b0119d957f25371c6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 02/63] fix: deleting a section by a mixed case name also
 removes its terms

---
 metatab/doc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 01384b9..44a8bd5 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -317,8 +317,8 @@ class MetatabDoc(object):
     def __delitem__(self, item):
 
         try:
-            if item in self.sections:
-                for t in self.sections[item]:
+            if item in self:
+                for t in self[item]:
                     self.terms.remove(t)
 
             del self.sections[item.lower()]
-- 
2.43.0


From 3da4822e03924ff0420612bbd7ef1de5785d652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 03/63] fix: as_version() does not change the version of the
 document

---
 metatab/doc.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 44a8bd5..866fa52 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -128,7 +128,18 @@ class MetatabDoc(object):
 
         """
 
-        return self._generate_identity_name(ver)
+        # Generating the name edits the version terms, so put them back afterward.
+        versions = [(v, v.value, list(v.children), [c.value for c in v.children])
+                    for v in self['Root'].find('Root.Version')]
+
+        try:
+            return self._generate_identity_name(ver)
+        finally:
+            for v, value, children, child_values in versions:
+                v.value = value
+                v.children = children
+                for c, child_value in zip(children, child_values):
+                    c.value = child_value
 
     @property
     def doc_dir(self):
-- 
2.43.0


From 6587651d1caf6c76eb3f57d27c59526e42af1fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 04/63] fix: write every one of several children with the same
 name

---
 metatab/terms.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 057042f..c253920 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -6,6 +6,7 @@ Special term subclasses
 """
 
 
+from collections import Counter
 from os.path import split, basename
 from metatab.util import slugify
 
@@ -621,8 +622,11 @@ class Term(object):
 
         properties = {tvm: self.value}
 
+        # Only one child of each name fits in the property array, so a name that is repeated gets rows
+        name_counts = Counter(c.record_term_lc for c in self.children)
+
         for c in self.children:
-            if c.is_terminal:
+            if c.is_terminal and name_counts[c.record_term_lc] == 1:
                 if c.record_term_lc:
                     # This is rare, but can happen if a property child is not given
                     # a property name by the section -- the "Section" term has a blank column.
@@ -632,7 +636,7 @@ class Term(object):
 
         # The non-terminal children have to get yielded normally -- they can't be arg-children
         for c in self.children:
-            if not c.is_terminal:
+            if not c.is_terminal or name_counts[c.record_term_lc] > 1:
                 for row in c.rows:
                     yield row
 
-- 
2.43.0


From 575e939392f58321d54332b189bcb69b78989500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 05/63] fix: strip only the 'root.' prefix from term names when
 writing

---
 metatab/doc.py   | 2 +-
 metatab/terms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 866fa52..d6cb36c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -814,7 +814,7 @@ class MetatabDoc(object):
             for row in s.rows:
                 term, value = row
 
-                term = term.replace('root.', '').title()
+                term = (term[len('root.'):] if term.startswith('root.') else term).title()
 
                 try:
                     yield [term] + value
diff --git a/metatab/terms.py b/metatab/terms.py
index c253920..2fbb238 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -955,7 +955,7 @@ class SectionTerm(Term):
             if not isinstance(value, (list, tuple)):
                 value = [value]
 
-            term = term.replace('root.', '').title()
+            term = (term[len('root.'):] if term.startswith('root.') else term).title()
             yield (term, value[0])
 
             children = list(zip(self.property_names, value[1:]))
-- 
2.43.0


From 7c7431745df241b9907137fd083fb536fb1cb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 06/63] fix: escape pipes, and accept values that are not
 strings, when writing lines

---
 metatab/terms.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 2fbb238..e77f8fd 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -944,9 +944,13 @@ class SectionTerm(Term):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
+        def escape(v):
+            # The pipe separates columns, so one inside of a value has to be escaped
+            return v if v is None else str(v).replace('|', '\\|')
+
         # Yield the section header
         if self.name != 'Root':
-            yield ('Section', '|'.join([self.value] + self.property_names))
+            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
@@ -956,14 +960,14 @@ class SectionTerm(Term):
                 value = [value]
 
             term = (term[len('root.'):] if term.startswith('root.') else term).title()
-            yield (term, value[0])
+            yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
-                if value and value.strip():
+                if value and str(value).strip():
                     child_t = '.' + (prop.title())
-                    yield ("    "+child_t, value)
+                    yield ("    "+child_t, escape(value))
 
     def as_lines(self):
         return '\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )
-- 
2.43.0


From fe1af1a43bf8c67041ec140e1acf6cb423384f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 07/63] fix: deleting terms from a section by name

---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index e77f8fd..2382092 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -889,9 +889,9 @@ class SectionTerm(Term):
 
     def __delitem__(self, item):
         """Delete all terms that match the given name"""
-        for t in self.terms:
-            if t.term.lower() == item.lower():
-                self.delete_term(item)
+        for t in list(self.terms):
+            if t.term_is(item):
+                self.remove_term(t)
 
         return
 
-- 
2.43.0


From b7cea871cb0817942445c248f44de91668255b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 08/63] fix: find() expands unqualified term names, and lists
 of names, to derived terms

---
 metatab/doc.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index d6cb36c..256ac7e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -386,18 +386,13 @@ class MetatabDoc(object):
         # Try to replace the term with the list of its derived terms; that is, replace the super-class with all
         # of the derived classes, but only do this expansion once.
         if _expand_derived:
-            try:
-                try:
-                    # Term is a string
-                    term = list(self.derived_terms[term.lower()]) + [term]
-                except AttributeError:  # Term is hopefully a list
-                    terms = []
-                    for t in term:
-                        terms.append(term)
-                        for dt in self.derived_terms[t.lower()]:
-                            terms.append(dt)
-            except KeyError as e:
-                pass
+            terms = []
+
+            for t in ([term] if isinstance(term, str) else term):
+                terms.extend(self.derived_terms.get(t.lower() if '.' in t else 'root.' + t.lower(), []))
+                terms.append(t)
+
+            term = terms
 
         # Find any of a list of terms
         if isinstance(term, (list, tuple)):
-- 
2.43.0


From d85eb12f39adc5c517846345ac3b9c3b64c5c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 09/63] fix: the dict of an empty document is an empty dict,
 not the string 'Root'

---
 metatab/terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 2382092..0c6f08f 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -990,6 +990,9 @@ class RootSectionTerm(SectionTerm):
         super().__init__('Root.Root', 'Root', [], 0, 0, file_name, file_type, None, doc, None)
 
     def as_dict(self, replace_value_names=True):
+        if not self.terms:
+            return {}
+
         d = super(RootSectionTerm, self).as_dict(replace_value_names)
 
         if replace_value_names and '@value' in d:
-- 
2.43.0


From 9e7705279e1ae3c40d383cdf62a81158ce335d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 10/63] fix: clean the document before writing it, so the file
 has the identifier and the updated name

---
 metatab/doc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 256ac7e..58836cf 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -895,8 +895,6 @@ class MetatabDoc(object):
 
     def _write(self, content, path: pathlib.Path, ext=None):
 
-        self.cleanse()
-
         debug_logger.debug("writing doc {}".format(str(path)))
 
         with path.open('wb') as f:
@@ -911,6 +909,8 @@ class MetatabDoc(object):
         if path.suffix != '.csv':
             raise MetatabError("Writing CSV file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_csv(), path)
 
     def write_lines(self, path=None):
@@ -920,6 +920,8 @@ class MetatabDoc(object):
         if path.suffix != '.txt':
             raise MetatabError("Writing line (txt) file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_lines(), path)
 
     def write(self, path=None):
-- 
2.43.0


From 79eaa0ebed1f23fe55577ca3f7d6fad5f7c9f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:12 +0000
Subject: [PATCH 11/63] fix: flatten() on python 3.10 and later

---
 metatab/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/util.py b/metatab/util.py
index 368ef30..65354e7 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -55,13 +55,13 @@ def flatten(d, sep='.'):
     """Flatten a data structure into tuples"""
 
     def _flatten(e, parent_key='', sep='.'):
-        import collections
+        from collections.abc import MutableMapping, MutableSequence
 
         prefix = parent_key + sep if parent_key else ''
 
-        if isinstance(e, collections.MutableMapping):
+        if isinstance(e, MutableMapping):
             return tuple((prefix + k2, v2) for k, v in e.items() for k2, v2 in _flatten(v, k, sep))
-        elif isinstance(e, collections.MutableSequence):
+        elif isinstance(e, MutableSequence):
             return tuple((prefix + k2, v2) for i, v in enumerate(e) for k2, v2 in _flatten(v, str(i), sep))
         else:
             return (parent_key, (e,)),
-- 
2.43.0


From 28ce7d8db4303c3fcf04199f9626156c29421551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:12 +0000
Subject: [PATCH 12/63] fix: pass the row generator to the parser in
 load_rows()

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 58836cf..3636ccc 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -519,7 +519,7 @@ class MetatabDoc(object):
 
     def load_rows(self, row_generator):
 
-        term_interp = TermParser(self, row_generator)
+        term_interp = TermParser(row_generator, resolver=self.resolver, doc=self)
 
         return self.load_terms(term_interp)
 
-- 
2.43.0


From e20ed1c7073c326c221d06009af923438b322360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:12 +0000
Subject: [PATCH 13/63] fix: a term with the same parent and record name is not
 its own parent

---
 metatab/parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index efb820d..30a895d 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -499,16 +499,19 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     else:
-                        last_parent_term = t.record_term
-                        last_term_map[ELIDED_TERM] = t
-                        last_term_map[t.record_term] = t
-
+                        # Get the parent before registering the term, so a term isn't its own parent
                         try:
-                            last_term_map[t.parent_term].add_child(t)
+                            parent = last_term_map[t.parent_term]
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        last_parent_term = t.record_term
+                        last_term_map[ELIDED_TERM] = t
+                        last_term_map[t.record_term] = t
+
+                        parent.add_child(t)
+
                     if t.parent_term_lc == 'root':
                         last_section.add_term(t)
 
-- 
2.43.0


From 50a692849f522d2cfa4edef443fdfbaefa896b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:12 +0000
Subject: [PATCH 14/63] fix: entering a section again, including Root, uses the
 columns of that section

---
 metatab/parser.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 30a895d..36ffa54 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -445,26 +445,23 @@ class TermParser(object):
 
                 t.section = last_section
 
-                def munge_param_map(t):
-                    return [p.lower() if p else i for i, p in enumerate(t.args)]
+                def munge_param_map(args):
+                    return [p.lower() if p else i for i, p in enumerate(args)]
 
                 if t.term_is('root.header'):
-                    self._param_map = munge_param_map(t)
+                    self._param_map = munge_param_map(t.args)
                     default_term_value_name = t.value.lower()
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
 
-                elif t.term_is('root.section'):
-                    self._param_map = munge_param_map(t)
+                elif t.term_is('root.section') or t.term_is('root.root'):
+                    # A section that has a header keeps using it when the section is entered again
+                    self._param_map = munge_param_map(t.property_names)
+                    default_term_value_name = t.default_term_value_name
                     # Parentage should not persist across sections
                     last_parent_term = self.root.record_term
 
-                    last_section = t
-                    default_term_value_name = '@value'
-                    t.section = None
-
-                elif t.term_is('root.root'):
                     last_section = t
                     t.section = None
 
-- 
2.43.0


From a3e5784a0e5d9b3629e6fb6ea98b2440ce1e0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:12 +0000
Subject: [PATCH 15/63] fix: a Header without a value name uses the default
 value name

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 36ffa54..39b0ab1 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -450,7 +450,7 @@ class TermParser(object):
 
                 if t.term_is('root.header'):
                     self._param_map = munge_param_map(t.args)
-                    default_term_value_name = t.value.lower()
+                    default_term_value_name = (t.value or '@value').lower()
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
-- 
2.43.0


From fb22e316751d8c6ca8fa34b012fdcc75545e5c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:12 +0000
Subject: [PATCH 16/63] fix: report parse errors that have no term

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 39b0ab1..4ab4931 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -223,7 +223,7 @@ class TermParser(object):
         for e in self.errors:
 
             errors.append({
-                'file': e.term.file_name,
+                'file': e.term.file_name if e.term else '<unknown>',
                 'row': e.term.row if e.term else '<unknown>',
                 'col': e.term.col if e.term else '<unknown>',
                 'term': e.term.join if e.term else '<unknown>',
-- 
2.43.0


From 20dc74e2ba8b14172d41308050e2b8ea758b8466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:12 +0000
Subject: [PATCH 17/63] fix: use the declarations of terms that have an elided
 parent

---
 metatab/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 4ab4931..f44e153 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -469,6 +469,12 @@ class TermParser(object):
 
                     # Case for normal, value-bearing terms
 
+                    has_elided_parent = t.has_elided_parent
+
+                    if has_elided_parent:
+                        # Elided parent terms refer to the last term that can be a parent
+                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
+
                     t.child_property_type = self._declared_terms \
                         .get(t.join, {}) \
                         .get('childpropertytype', 'any')
@@ -486,10 +492,7 @@ class TermParser(object):
                     # Only terms with the term name in the first column can be parents of
                     # other terms. This rule excludes argument terms and terms with an elided parent
 
-                    if t.has_elided_parent:
-                        # Elided parent terms refer to the last term that can be a parent
-                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
-
+                    if has_elided_parent:
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-- 
2.43.0


From bc19537215ad037840a19fc935c77ca6616c6a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 18/63] fix: a file that can't be included is an IncludeError

---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index f44e153..6d87255 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -8,7 +8,7 @@ objects.
 """
 
 from rowgenerators import Source, get_generator, Url, parse_app_url
-from rowgenerators.exceptions import DownloadError
+from rowgenerators.exceptions import RowGeneratorError
 
 ROOT_TERM = 'root'  # No parent term -- no '.' --  in term cell
 
@@ -366,7 +366,7 @@ class TermParser(object):
                         e.term = t
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
+                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
                         e.term = t
                         raise e
-- 
2.43.0


From eca5e447149cefd32714016172ec43764f1fa39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 19/63] fix: included files can include other files by relative
 path

---
 metatab/parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 6d87255..9d118ce 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -354,10 +354,12 @@ class TermParser(object):
 
                     try:
 
-                        sub_gen = get_generator(resolved.get_resource().get_target())
+                        # Pass the Url, not a generator, so the included terms have the path of their
+                        # file, and the current section, to return to after a nested include.
+                        target = resolved.get_resource().get_target()
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc):
-                            yield t
+                        for sub_t in self.generate_terms(target, last_section, file_type=t.record_term_lc):
+                            yield sub_t
 
                         if last_section:
                             yield last_section  # Re-assert the last section
-- 
2.43.0


From da3c8cd0abcc6963e26bc243a5b28d2c851b9bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 20/63] fix: detect include loops

---
 metatab/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 9d118ce..84c94c6 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -19,7 +19,7 @@ METATAB_ASSETS_URL = 'http://assets.metatab.org/'
 from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
-from os.path import dirname, join, exists
+from os.path import dirname, join, exists, normpath
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -298,13 +298,14 @@ class TermParser(object):
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None):
+    def generate_terms(self, ref, root, file_type=None, parents=()):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
         :param doc:
         :param root:
         :param ref:
+        :param parents: Urls of the documents that include this one
 
         """
 
@@ -318,6 +319,7 @@ class TermParser(object):
             row_gen = get_generator(ref)
             ref_path = ref.path
 
+        parents = parents + (normpath(str(ref)),)
 
         try:
             for line_n, row in enumerate(row_gen, 1):
@@ -347,7 +349,7 @@ class TermParser(object):
                     else:
                         resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
 
-                    if row_gen.ref == resolved:
+                    if normpath(str(resolved)) in parents:
                         raise IncludeError("Include loop for '{}' ".format(resolved))
 
                     yield t
@@ -358,7 +360,8 @@ class TermParser(object):
                         # file, and the current section, to return to after a nested include.
                         target = resolved.get_resource().get_target()
 
-                        for sub_t in self.generate_terms(target, last_section, file_type=t.record_term_lc):
+                        for sub_t in self.generate_terms(target, last_section, file_type=t.record_term_lc,
+                                                         parents=parents):
                             yield sub_t
 
                         if last_section:
-- 
2.43.0


From 3309c73fa70bde71d3cf98464bae31db0d4f77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 21/63] fix: include errors refer to the term of the include
 that failed

---
 metatab/parser.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 84c94c6..08f3cb2 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -344,17 +344,17 @@ class TermParser(object):
 
                 if t.term_is('include') or t.term_is('declare'):
 
-                    if t.term_is('include'):
-                        resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
-                    else:
-                        resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
+                    try:
 
-                    if normpath(str(resolved)) in parents:
-                        raise IncludeError("Include loop for '{}' ".format(resolved))
+                        if t.term_is('include'):
+                            resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
+                        else:
+                            resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
 
-                    yield t
+                        if normpath(str(resolved)) in parents:
+                            raise IncludeError("Include loop for '{}' ".format(resolved))
 
-                    try:
+                        yield t
 
                         # Pass the Url, not a generator, so the included terms have the path of their
                         # file, and the current section, to return to after a nested include.
@@ -368,7 +368,8 @@ class TermParser(object):
                             yield last_section  # Re-assert the last section
 
                     except IncludeError as e:
-                        e.term = t
+                        if getattr(e, 'term', None) is None:
+                            e.term = t
                         raise
 
                     except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
-- 
2.43.0


From 7fd1920d467ac067526483a6704fccc8392a8ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 22/63] fix: use the identifier as the name of a datapackage
 that has no name

---
 metatab/datapackage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 356ead5..07854e7 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -25,8 +25,8 @@ def convert_to_datapackage(doc):
         pass
 
     if not 'name' in dp:
-        if 'indentifier' in dp:
-            dp['name'] = dp['indentifier']
+        if 'identifier' in dp:
+            dp['name'] = dp['identifier']
         else:
             raise ConversionError("Datapackage.json requires a Name or Identity term")
 
-- 
2.43.0


From 4c59e151f42554b3abd2aa29463b030edfc111bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 23/63] fix: the entry points name a module that does not exist

---
 metatab/rowgenerators.py | 6 ++++++
 1 file changed, 6 insertions(+)
 create mode 100644 metatab/rowgenerators.py

diff --git a/metatab/rowgenerators.py b/metatab/rowgenerators.py
new file mode 100644
index 0000000..0ec6ec3
--- /dev/null
+++ b/metatab/rowgenerators.py
@@ -0,0 +1,6 @@
+# Copyright (c) 2017 Civic Knowledge. This file is licensed under the terms of the
+# MIT License, included in this distribution as LICENSE.txt
+
+""" The name that the entry points use for the row generators """
+
+from .rowgen import MetatabRowGenerator, TextRowGenerator, YamlMetatabSource
-- 
2.43.0


From 2b7deed74f258377d487b35b87ecacb57a303719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 24/63] fix: moving a term to a section takes it out of the
 section it was in

---
 metatab/terms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 0c6f08f..694ed22 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -749,6 +749,11 @@ class SectionTerm(Term):
         """Add a term to this section and set it's ownership. Should only be used on root level terms"""
         if t not in self.terms:
             if t.parent_term_lc == 'root':
+                if t.section is not None and t.section is not self and t.section.doc is self.doc:
+                    # Moving from another section of this document
+                    t.section.remove_term(t, remove_from_doc=False)
+
+                t._section = self
                 self.terms.append(t)
 
                 self.doc.add_term(t, add_section=False)
-- 
2.43.0


From 3182240984ea624bad1dee21b0b7e639be8ac995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 25/63] fix: new children get the value name and property type
 of their declaration

---
 metatab/terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 694ed22..70fcc5b 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -186,6 +186,7 @@ class Term(object):
                parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
 
         c.term_value_name = self.doc.decl_terms.get(c.join, {}).get('termvaluename', c.term_value_name)
+        c.child_property_type = self.doc.decl_terms.get(c.join, {}).get('childpropertytype', c.child_property_type)
 
         assert not c.term_is("*.Section")
         self.children.append(c)
@@ -266,6 +267,8 @@ class Term(object):
             tc = self.doc.get_term_class(term.lower())
             c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
             assert not c.term_is("Datafile.Section"), (self, c)
+            c.term_value_name = self.doc.decl_terms.get(c.join, {}).get('termvaluename', c.term_value_name)
+            c.child_property_type = self.doc.decl_terms.get(c.join, {}).get('childpropertytype', c.child_property_type)
             self.children.append(c)
 
         else:
-- 
2.43.0


From 4b7fec09e2cc42018e306cc45d1fbd64422ba357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 26/63] fix: get_or_new_term() without a value keeps the value
 of the term

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 70fcc5b..8c7879c 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -805,7 +805,7 @@ class SectionTerm(Term):
             t = self.new_term(term, value, **kwargs)
 
         else:
-            if value is not None:
+            if value is not None and value is not False:
                 t.value = value
 
             for k, v in kwargs.items():
-- 
2.43.0


From c68356f03b3ff10335df1980bf08856cf107f09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:44 +0000
Subject: [PATCH 27/63] fix: write the properties of terms in the Root section
 under their names

---
 metatab/terms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 8c7879c..7ce0606 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -919,7 +919,8 @@ class SectionTerm(Term):
         lower_d = {k.lower(): v for k, v in d.items()}
 
         args = []
-        for n in [tvm] + self.property_names:
+        # The Root section is written without a section row, so its properties have no columns
+        for n in [tvm] + (self.property_names if self.name != 'Root' else []):
             args.append(lower_d.get(n.lower(), ''))
 
             try:
-- 
2.43.0


From b0f407c54e47bfe369fbe72072e43a11f9a7b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:44 +0000
Subject: [PATCH 28/63] fix: missing parts of a semantic version are 0, as
 parts without a value are

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 3636ccc..3f664d6 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -624,7 +624,7 @@ class MetatabDoc(object):
                                 (patch, 'Version.Patch')):
 
             if not term:
-                term = version.new_child(term_name, 1)
+                term = version.new_child(term_name, 0)
 
             if term.value is None:
                 term.value = 0
-- 
2.43.0


From d7f30182854bb52115e96bf15e4dfb20023effa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 29/63] fix: version math without a version is a MetatabError

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 3f664d6..b4a90c4 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -745,7 +745,7 @@ class MetatabDoc(object):
 
             try:
                 int(mv)
-            except ValueError:
+            except (ValueError, TypeError):
                 raise MetatabError(
                     "When specifying version math, version value in Root.Version or Version.Patch  term must be an integer")
 
-- 
2.43.0


From f8b05aebcf013332b5f8bfa43c979bc1f7abd821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:16 +0000
Subject: [PATCH 30/63] fix: report a term that the -f option does not find

---
 metatab/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/cli.py b/metatab/cli.py
index 1463823..3235d0f 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -125,6 +125,10 @@ def metatab():
     elif args.find_first:
 
         t = doc.find_first(args.find_first)
+
+        if t is None:
+            err("Failed to find term '{}'".format(args.find_first))
+
         print(t.value)
 
 
-- 
2.43.0


From 1644eee6bd670abfddbaf49644286a1aae7d279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:25 +0000
Subject: [PATCH 31/63] fix: write the Root section first, wherever it was
 sorted to

---
 metatab/doc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index b4a90c4..6d70b4c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -794,11 +794,15 @@ class MetatabDoc(object):
 
         return r.as_dict(replace_value_names)
 
+    def _root_first(self):
+        """Sections in the order to write them. Root has no section row, so it must be first"""
+        return sorted(self.sections.values(), key=lambda s: s.name != 'Root')
+
     @property
     def rows(self):
         """Iterate over all of the rows"""
 
-        for s_name, s in self.sections.items():
+        for s in self._root_first():
 
             # Yield the section header
             if s.name != 'Root':
@@ -820,7 +824,7 @@ class MetatabDoc(object):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
-        for s_name, s in self.sections.items():
+        for s in self._root_first():
             yield from s.lines
 
     @property
-- 
2.43.0


From 810b79caae6b88f5dbf9e1dcf346f9730c482f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:08 +0000
Subject: [PATCH 32/63] fix: the properties on a row with an elided parent
 belong to the term of that row

---
 metatab/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 08f3cb2..d93c331 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -502,7 +502,8 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-                        last_term_map[last_parent_term].add_child(t)
+                        # The parent is the term of the row, which may itself have an elided parent
+                        t.parent.add_child(t)
 
                     else:
                         # Get the parent before registering the term, so a term isn't its own parent
-- 
2.43.0


From 20eb9944528ad49e36ade6d31deef66cbe3e34e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:28 +0000
Subject: [PATCH 33/63] fix: the declarations of a document apply to terms
 loaded into it later

---
 metatab/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index d93c331..6082384 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -81,6 +81,11 @@ class TermParser(object):
 
         self.install_declare_terms()
 
+        if self.doc:
+            # Declarations that are already in the document apply to what is loaded into it
+            self._declared_terms.update(self.doc.decl_terms)
+            self._declared_sections.update(self.doc.decl_sections)
+
     @property
     def path(self):
         """Return the path from the row generator, if it is avilable"""
-- 
2.43.0


From 1ba8dd3ed716075121377829a6b0e0148002763d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:28 +0000
Subject: [PATCH 34/63] fix: new terms with an unqualified name get their
 registered class

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 7ce0606..87767c2 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -776,7 +776,7 @@ class SectionTerm(Term):
     def new_term(self, term, value, **kwargs):
         """Create a new root-level term in this section"""
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class(self.normalize_term(term))
 
         t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)
 
-- 
2.43.0


From 1ee1237eda28f485f977c0e756996016af72443b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:28 +0000
Subject: [PATCH 35/63] fix: set_terms() with a value of two characters

---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 87767c2..d920e9a 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -834,10 +834,10 @@ class SectionTerm(Term):
             self.add_term(t)
 
         for k,v in kw_terms.items():
-            try:
+            if isinstance(v, (list, tuple)):
                 value, props = v
-            except (ValueError, TypeError) as e:
-                value, props = v,{}
+            else:
+                value, props = v, {}
 
             self.new_term(k,value,**props)
 
-- 
2.43.0


From e1a59df2444b61c3e3a09104bcd9e054e97c1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:13 +0000
Subject: [PATCH 36/63] fix: a section with a Section column gets no term for
 its own section

---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 6082384..458c783 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -454,7 +454,7 @@ class TermParser(object):
                 except IndexError:
                     pass  # Probably no parameter map.
 
-                t.section = last_section
+                t._section = last_section  # Not through the setter; sections may have a Section column
 
                 def munge_param_map(args):
                     return [p.lower() if p else i for i, p in enumerate(args)]
@@ -474,7 +474,7 @@ class TermParser(object):
                     last_parent_term = self.root.record_term
 
                     last_section = t
-                    t.section = None
+                    t._section = None
 
                 else:
 
-- 
2.43.0


From e309ebc713a05b21cb8b376444b8f5d6e8a55ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:20 +0000
Subject: [PATCH 37/63] fix: terms declared to inherit from others in a later
 load

---
 metatab/parser.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 458c783..656f19f 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -127,12 +127,6 @@ class TermParser(object):
     def super_terms(self):
         """Return a dictionary mapping term names to their super terms"""
 
-        # If the doc already has super terms, we've already parsed something, so
-        # assume we parsed the declaration, and can use re-use the old decls.
-        if self.doc and self.doc.super_terms:
-            return self.doc.super_terms
-
-
         return  {k.lower(): v['inheritsfrom'].lower()
                          for k, v in self._declared_terms.items() if 'inheritsfrom' in v}
 
-- 
2.43.0


From ad8cee295787aff9455641b357c35986243a46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:20 +0000
Subject: [PATCH 38/63] fix: documents created with declarations know which
 terms inherit from others

---
 metatab/doc.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 6d70b4c..ff69904 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -179,12 +179,23 @@ class MetatabDoc(object):
 
         list(term_interp)
 
-        dd = term_interp.declare_dict
+        self._load_declare_dict(term_interp)
+
+        return self
+
+    def _load_declare_dict(self, terms):
+        """Get the declarations from a term parser"""
+
+        dd = terms.declare_dict
 
         self.decl_terms.update(dd['terms'])
         self.decl_sections.update(dd['sections'])
 
-        return self
+        self.super_terms.update(terms.super_terms())
+
+        kf = lambda e: e[1]  # Sort on the value
+        self.derived_terms = {k: set(e[0] for e in g)
+                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
 
     def add_term(self, t, add_section=True):
         t.doc = self
@@ -496,16 +507,7 @@ class MetatabDoc(object):
                 assert t.parent is not None
 
         try:
-            dd = terms.declare_dict
-
-            self.decl_terms.update(dd['terms'])
-            self.decl_sections.update(dd['sections'])
-
-            self.super_terms.update(terms.super_terms())
-
-            kf = lambda e: e[1]  # Sort on the value
-            self.derived_terms = {k: set(e[0] for e in g)
-                                  for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
+            self._load_declare_dict(terms)
 
         except AttributeError as e:
             pass
-- 
2.43.0


From a5f390cadcb2f40fb7e5662de0b1ac5e710575f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:08 +0000
Subject: [PATCH 39/63] fix: testing a term for a property

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index d920e9a..7855e51 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -325,7 +325,7 @@ class Term(object):
         if item.lower() == 'value':
             return True
 
-        return item.lower() in self._common_properties or item.lower() in self.properties
+        return item.lower() in self._common_properties or item.lower() in self.props
 
     def __getattr__(self, item):
         """Maps values to attributes.
-- 
2.43.0


From beb8e4c076fe3f6293f2eb11e2582bf261676eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:08 +0000
Subject: [PATCH 40/63] fix: getting the value of a term as the item 'value',
 as it is set

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 7855e51..c35257c 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -290,7 +290,7 @@ class Term(object):
 
         item = str(item)
 
-        if item.lower() == self.term_value_name.lower():
+        if item.lower() == self.term_value_name.lower() or item.lower() == 'value':
             return self
 
         else:
-- 
2.43.0


From 06a3408a60dfa089824d0a36091af891edf0ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:08 +0000
Subject: [PATCH 41/63] fix: terms that inherit from a term with an unqualified
 name

---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 656f19f..ac4bbaf 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -127,8 +127,8 @@ class TermParser(object):
     def super_terms(self):
         """Return a dictionary mapping term names to their super terms"""
 
-        return  {k.lower(): v['inheritsfrom'].lower()
-                         for k, v in self._declared_terms.items() if 'inheritsfrom' in v}
+        return  {k.lower(): Term.normalize_term(v['inheritsfrom'])
+                         for k, v in self._declared_terms.items() if v.get('inheritsfrom')}
 
     @property
     def declare_dict(self):
-- 
2.43.0


From c2f4194246b8ff6120294e0ab7bdfe11fbd0d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:08 +0000
Subject: [PATCH 42/63] fix: datapackage resources with properties that are not
 on the row of the term

---
 metatab/datapackage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 07854e7..bfbd6d1 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -35,7 +35,7 @@ def convert_to_datapackage(doc):
     except KeyError as e:
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
+    file_resources = [fr.all_props for fr in doc['resources'] if fr.term_is('root.datafile')]
 
     dp['resources'] = []
 
-- 
2.43.0


From 1ef0667b79b5070d29eba5e49b17f921d5672811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:59 +0000
Subject: [PATCH 43/63] fix: version math on a version that is a fraction is an
 error

---
 metatab/doc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index ff69904..909b7ed 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -746,7 +746,8 @@ class MetatabDoc(object):
             # Increment or decrement the version
 
             try:
-                int(mv)
+                if int(mv) != float(mv):
+                    raise ValueError()
             except (ValueError, TypeError):
                 raise MetatabError(
                     "When specifying version math, version value in Root.Version or Version.Patch  term must be an integer")
-- 
2.43.0


From 263c131e09c7dcf1b455546afc516fca04a96aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:00 +0000
Subject: [PATCH 44/63] fix: a column property is in use if any one of several
 with the same name has a value

---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 909b7ed..1148943 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -557,9 +557,9 @@ class MetatabDoc(object):
 
             for table in schema_section.find('Root.Table'):
                 for column in table.find('Table.Column'):
-                    for k, v in column.props.items():
-                        if v and v.strip():
-                            used_args.add(k)
+                    for c in column.children:
+                        if c.value and c.value.strip():
+                            used_args.add(c.record_term_lc)
 
             for arg in set(section_args) - used_args:
                 try:
-- 
2.43.0


From 7f9bbd53383d4736bf79db9748426b1b8f754ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:00 +0000
Subject: [PATCH 45/63] fix: a table without columns is a conversion error

---
 metatab/datapackage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index bfbd6d1..f8bc36a 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -32,7 +32,7 @@ def convert_to_datapackage(doc):
 
     try:
         table_schemas = {t.value: t.as_dict()['column'] for t in doc['schema']}
-    except KeyError as e:
+    except (KeyError, TypeError) as e:  # TypeError -> Table has no columns, so it isn't a dict
         raise ConversionError("Failed to get schemas: " + str(e))
 
     file_resources = [fr.all_props for fr in doc['resources'] if fr.term_is('root.datafile')]
-- 
2.43.0


From 1feeba0df0bfc4163f82fa94062483779255b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:00 +0000
Subject: [PATCH 46/63] fix: datapackage fields for columns that have no
 properties

---
 metatab/datapackage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index f8bc36a..3399b3f 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -50,6 +50,9 @@ def convert_to_datapackage(doc):
         def mkdict(c):
             d = {}
 
+            if not hasattr(c, 'get'):
+                c = {'name': c}  # A column without properties is just its name
+
             for prop in ('name', 'title', 'description'):
                 if c.get(prop):
                     d[prop] = c[prop]
-- 
2.43.0


From 888378ccbbae6733a14a49602e0a59fc4a24641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:00 +0000
Subject: [PATCH 47/63] fix: datapackage of a document without a resources
 section

---
 metatab/datapackage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 3399b3f..f6a23cf 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -35,7 +35,7 @@ def convert_to_datapackage(doc):
     except (KeyError, TypeError) as e:  # TypeError -> Table has no columns, so it isn't a dict
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [fr.all_props for fr in doc['resources'] if fr.term_is('root.datafile')]
+    file_resources = [fr.all_props for fr in doc.get_section('resources', []) if fr.term_is('root.datafile')]
 
     dp['resources'] = []
 
-- 
2.43.0


From e547966a46d40da5cf2ca7e47fcde2ef3c742716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:33 +0000
Subject: [PATCH 48/63] fix: write properties that are the number zero as lines

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index c35257c..56963ea 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -974,7 +974,7 @@ class SectionTerm(Term):
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
-                if value and str(value).strip():
+                if value is not None and str(value).strip():
                     child_t = '.' + (prop.title())
                     yield ("    "+child_t, escape(value))
 
-- 
2.43.0


From b01f4018a30742a39c94119a684bcc806d2f6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:04 +0000
Subject: [PATCH 49/63] fix: a padded section name gets the declared columns

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 56963ea..33bc2c7 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -687,7 +687,7 @@ class SectionTerm(Term):
         self.doc = doc
 
         self.default_term_value_name = '@value'
-        section_args = term_args if term_args else self.doc.section_args(value) if self.doc else []
+        section_args = term_args if term_args else self.doc.section_args(value.strip()) if self.doc else []
 
         self.terms = []  # Separate from children. Sections have contained terms, but no children.
 
-- 
2.43.0


From c6f855de01736eb32424ae3a3460a7e2423c6f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:16 +0000
Subject: [PATCH 50/63] fix: the columns of the Root section don't become terms
 when it is entered again

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index ac4bbaf..50d5380 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -392,7 +392,7 @@ class TermParser(object):
                 yield t
 
                 # Yield any child terms, from the term row arguments
-                if not t.term_is('section') and not t.term_is('header'):
+                if not t.term_is('section') and not t.term_is('root.root') and not t.term_is('header'):
                     for col, value in enumerate(t.args, 0):
                         if str(value).strip():
 
-- 
2.43.0


From a0257fddee84f8d415d3a37397045044fea2e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:31 +0000
Subject: [PATCH 51/63] fix: numbers can be concatenated in a dictionary

---
 metatab/terms.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 33bc2c7..2160e0c 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -546,6 +546,14 @@ class Term(object):
 
         return self._convert_to_dict(self, replace_value_names)
 
+    @classmethod
+    def _text_to_join(cls, term, replace_value_names=True):
+        """The value of a term that is declared to be concatenated, with numbers as text"""
+
+        v = cls._convert_to_dict(term, replace_value_names)
+
+        return '' if v is None else str(v) if isinstance(v, (int, float)) else v
+
     @classmethod
     def _convert_to_dict(cls, term, replace_value_names=True):
         """Converts a record heirarchy to nested dicts.
@@ -582,13 +590,11 @@ class Term(object):
                     else:
                         s = ''
 
-                    d[c.record_term_lc] =s + (cls._convert_to_dict(c, replace_value_names) or '')
+                    d[c.record_term_lc] =s + cls._text_to_join(c, replace_value_names)
 
                 elif c.child_property_type == 'bconcat':  # Concat with a blank
 
-                    d[c.record_term_lc] = d.get(c.record_term_lc, '') +  (cls._convert_to_dict(c,
-                                                                                               replace_value_names)
-                                                                          or '')
+                    d[c.record_term_lc] = d.get(c.record_term_lc, '') + cls._text_to_join(c, replace_value_names)
 
                 else:
                     try:
-- 
2.43.0


From 6417fffa7e54ff0609de9809b9c3ed5d76b22409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:37 +0000
Subject: [PATCH 52/63] fix: include a local file whose name begins with http

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 50d5380..82c1843 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -286,7 +286,7 @@ class TermParser(object):
 
         include_ref = name.strip('/')
 
-        if include_ref.startswith('http'):
+        if include_ref.startswith(('http:', 'https:')):
             path = include_ref
         else:
             if not d:
-- 
2.43.0


From 65f415a28457bf100431048dc3b8525d335d9e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:31 +0000
Subject: [PATCH 53/63] fix: includes and declarations in a directory whose
 name is quoted in a Url

---
 metatab/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 82c1843..b4c4647 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -20,6 +20,7 @@ from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
 from os.path import dirname, join, exists, normpath
+from urllib.parse import unquote
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -316,7 +317,7 @@ class TermParser(object):
             ref_path = row_gen.__class__.__name__
         else:
             row_gen = get_generator(ref)
-            ref_path = ref.path
+            ref_path = unquote(ref.path)  # The path in a Url is quoted
 
         parents = parents + (normpath(str(ref)),)
 
-- 
2.43.0


From 5ddc90b0ae29e5d1b828636e9e24de6940179737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:56 +0000
Subject: [PATCH 54/63] fix: metatab -t named the columns of Root after the
 last section

---
 metatab/parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index b4c4647..dc9a78c 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -422,6 +422,7 @@ class TermParser(object):
         last_section = None
 
         last_section = self.root
+        self._param_map = []  # From the last section, if the terms were already iterated
         last_term_map[ELIDED_TERM] = self.root
         last_term_map[self.root.record_term] = self.root
 
-- 
2.43.0


From 64639094eeb284748ffe27805b22d094d3007d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:25 +0000
Subject: [PATCH 55/63] fix: a Dataset term outside of the Root section does
 not empty the document's name

---
 metatab/doc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1148943..28171af 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -671,7 +671,8 @@ class MetatabDoc(object):
 
         identifier = self.get_value('Root.Identifier')
 
-        datasetname = self.get_value('Root.Dataset')
+        # The same term that the name is generated from
+        datasetname = self.find_first_value('Root.Dataset', section='Root')
 
         if datasetname:
 
-- 
2.43.0


From 1bb0ae9894ceac4acc53cea64fc0d3b604d7d7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:51 +0000
Subject: [PATCH 56/63] fix: a document that was not read from a file can be
 written without naming one

---
 metatab/doc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 28171af..7f25a0e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -878,8 +878,10 @@ class MetatabDoc(object):
 
         if path:
             u = parse_app_url(str(path))
-        else:
+        elif self.ref is not None:
             u = self.ref
+        else:
+            return pathlib.Path(DEFAULT_METATAB_FILE)
 
         if u.scheme != 'file':
             raise MetatabError("Can't write file to URL '{}'".format(str(path)))
-- 
2.43.0


From b925859610e8a7063452427cd481a745543e5825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:35 +0000
Subject: [PATCH 57/63] fix: the doc of a metatab URL can be read when the URL
 names a line file

---
 metatab/appurl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 479926a..d3b1722 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -93,7 +93,7 @@ class MetatabUrl(InnerFile, Url):
         """Return the metatab document for the URL"""
         from metatab import MetatabDoc
         t = self.get_resource().get_target()
-        return MetatabDoc(t.inner)
+        return MetatabDoc(t)
 
     @property
     def generator(self):
-- 
2.43.0


From 3fb4d9b085352d83321bafcf7d91879a847acad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:35 +0000
Subject: [PATCH 58/63] fix: the directory and time of a document whose path
 has blanks are those of its file

---
 metatab/doc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7f25a0e..bf66371 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -67,7 +67,7 @@ class MetatabDoc(object):
 
                 if self._ref.scheme == 'file':
                     try:
-                        self._mtime = getmtime(self._ref.path)
+                        self._mtime = getmtime(self._ref.fspath)
                     except (FileNotFoundError, OSError):
                         self._mtime = 0
                 else:
@@ -150,7 +150,7 @@ class MetatabDoc(object):
             return None
 
         u = parse_app_url(self.ref)
-        return abspath(dirname(u.path))
+        return abspath(dirname(u.fspath))
 
     @classmethod
     def register_term_class(cls, term_name, class_or_name):
-- 
2.43.0


From 77eae05fd0fb15fac252d3be0aa8be6a26f7cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:35 +0000
Subject: [PATCH 59/63] fix: the path of a document is that of the file it was
 read from

---
 metatab/doc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index bf66371..e700042 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -97,7 +97,7 @@ class MetatabDoc(object):
     def path(self):
         """Return the path to the file, if the ref is a file"""
 
-        if not isinstance(self.ref, str):
+        if not self.ref:
             return None
 
         u = parse_app_url(self.ref)
@@ -105,7 +105,7 @@ class MetatabDoc(object):
         if u.inner.proto != 'file':
             return None
 
-        return u.path
+        return str(u.fspath)
 
     @property
     def cache(self):
-- 
2.43.0


From e293854c84d4e3e441165737bd4a6e051eeed7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:37 +0000
Subject: [PATCH 60/63] fix: joining a name to a metatab URL printed a line on
 standard output

---
 metatab/appurl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index d3b1722..1daee57 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -122,8 +122,6 @@ class MetatabUrl(InnerFile, Url):
 
     def join_target(self, tf):
 
-        print("Type=", type(self))
-
         if self.target_file == DEFAULT_METATAB_FILE:
             return self.inner.join_dir(tf)
         else:
-- 
2.43.0


From dc3783c25cb95e2437c4eaef905374962ec9d3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:09 +0000
Subject: [PATCH 61/63] fix: a file that is named without its directory can
 include files

---
 metatab/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index dc9a78c..2a752d6 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -290,7 +290,7 @@ class TermParser(object):
         if include_ref.startswith(('http:', 'https:')):
             path = include_ref
         else:
-            if not d:
+            if d is None:
                 raise IncludeError("Can't include '{}' because don't know current path "
                                    .format(name))
 
@@ -347,7 +347,8 @@ class TermParser(object):
                     try:
 
                         if t.term_is('include'):
-                            resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
+                            resolved = self.find_include_doc(None if ref is row_gen else dirname(ref_path),
+                                                             t.value.strip())
                         else:
                             resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
 
-- 
2.43.0


From 1a3c41e894963cc7b5a452c6256581a83ea7e5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:43 +0000
Subject: [PATCH 62/63] fix: a metatab URL of a zip file named the first file
 in it, not metadata.csv

---
 metatab/appurl.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 1daee57..530bd4b 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -5,6 +5,8 @@
 
 """
 
+import re
+
 from metatab import DEFAULT_METATAB_FILE
 from os.path import basename, join
 from rowgenerators import Url
@@ -118,7 +120,14 @@ class MetatabUrl(InnerFile, Url):
         return MetatabUrl(str(u), downloader=self._downloader)
 
     def get_target(self):
-        return MetatabUrl(str(self.inner.get_target()), downloader=self._downloader)
+
+        inner = self.inner
+
+        if self.resource_format == 'zip':
+            # The archive's target file is a regular expression
+            inner = inner.join_target('(^|/){}$'.format(re.escape(self.target_file)))
+
+        return MetatabUrl(str(inner.get_target()), downloader=self._downloader)
 
     def join_target(self, tf):
 
-- 
2.43.0


From 1830259ff6bd6c1422f347da852cb49b0d2c1243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:21 +0000
Subject: [PATCH 63/63] fix: the list of terms parses the file into a new
 document, not the loaded one

---
 metatab/cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 3235d0f..e22c300 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -9,7 +9,7 @@ import json
 import sys
 from genericpath import exists
 
-from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, parse_app_url
+from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, TermParser, parse_app_url
 from rowgenerators.util import get_cache, clean_cache
 from os.path import dirname
 from rowgenerators.util import fs_join as join
@@ -133,7 +133,8 @@ def metatab():
 
 
     elif args.out_type == 'terms':
-        for t in doc._term_parser:
+        # Into a new document: the sections and declarations of the loaded one would change how terms parse
+        for t in TermParser(metadata_url, doc=MetatabDoc(cache=cache)):
             print(t)
 
     elif args.out_type == 'json':
-- 
2.43.0

