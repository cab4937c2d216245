From aaa46486bf8ff9783b11b294457c224b099c26fb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 01/59] fix: pathexpr returned the compile() builtin once the
 expression cache was full

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index f82cf3a..51cc517 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -45,7 +45,7 @@ def pathexpr(expr):
         if len(expression_cache) < max_cache_size:
             return expression_cache.setdefault(expr, compiled)
         else:
-            return compile
+            return compiled
 
 
 class PathExpression(object):
-- 
2.43.0


From c5fd1b2040a508be92502d64722d5a70a9e0f782 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 02/59] fix: '..' in find() stopped on hidden list slots and on
 children of empty compounds

---
 flatland/schema/base.py  | 8 ++++++++
 flatland/schema/paths.py | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index 66c60f4..e17d4fe 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -394,6 +394,14 @@ class Element(_BaseElement):
             element = element.parent
         raise StopIteration()
 
+    @property
+    def _addressable_parent(self):
+        """The closest parent that is not a hidden Slot, or None."""
+        for element in self.parents:
+            if not isinstance(element, Slot):
+                return element
+        return None
+
     @property
     def path(self):
         """An iterator of all elements from root to the Element, inclusive."""
diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 51cc517..ad40bd7 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -64,8 +64,10 @@ class PathExpression(object):
                 if op is TOP:
                     el = el.root
                 elif op is UP:
-                    if el.parent:
-                        el = el.parent
+                    # an empty container is false in a boolean context
+                    parent = el._addressable_parent
+                    if parent is not None:
+                        el = parent
                 elif op is HERE:
                     pass
                 elif op is NAME:
-- 
2.43.0


From 14feadb047baeb9bb375eabe187927d04276ab2c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 03/59] fix: assigning an element to a sequence index left it
 without a parent

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 489552b..01976b4 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -332,7 +332,7 @@ class Sequence(Container, list):
         else:
             if not isinstance(value, Element):
                 value = self.member_schema(value=value)
-                value.parent = self
+            value.parent = self
         list.__setitem__(self, index, value)
 
     def __setslice__(self, i, j, value):
-- 
2.43.0


From 95cb069500e9c47981463e23c31ee42eda5ed689 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 04/59] fix: assigning an element to a List index lost its
 value

---
 flatland/schema/containers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 01976b4..86c0417 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -495,8 +495,12 @@ class List(Sequence):
             list.__setitem__(self, index, value)
             self._renumber()
         else:
-            slot = self[index]
-            slot.set(value)
+            slot = list.__getitem__(self, index)
+            if isinstance(value, Element):
+                slot.element = value
+                value.parent = slot
+            else:
+                slot.element.set(value)
 
     def __setslice__(self, i, j, sequence):
         return self.__setitem__(slice(i, j), sequence)
-- 
2.43.0


From 4cadfe2f347fd03643a4777c24e2031272048a5d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 05/59] fix: List.pop returned the hidden slot instead of the
 member

---
 flatland/schema/containers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 86c0417..406386c 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -519,10 +519,10 @@ class List(Sequence):
         return self.__delitem__(slice(i, j))
 
     def pop(self, index=-1):
-        value = list.pop(self, index)
+        element = list.pop(self, index).element
         self._renumber()
-        value.parent = None
-        return value
+        element.parent = None
+        return element
 
     def insert(self, index, value):
         list.insert(self, index, self._new_slot(value))
-- 
2.43.0


From 609dc5f8fe39b3f173cb0fbdb217e83f98bec2d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 06/59] fix: List.sort passed hidden slots to the key function

---
 flatland/schema/containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 406386c..f19227b 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -534,7 +534,10 @@ class List(Sequence):
 
     def sort(self, cmp=None, key=None, reverse=False):
         assert cmp is None  # no cmp for list.sort in py3
-        list.sort(self, key=key, reverse=reverse)
+        slot_key = None
+        if key is not None:
+            slot_key = lambda slot: key(slot.element)
+        list.sort(self, key=slot_key, reverse=reverse)
         self._renumber()
 
     def reverse(self):
-- 
2.43.0


From c00d2182374687bfa65c7a15b3d933f56ef26eb4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:38:32 +0000
Subject: [PATCH 07/59] fix: += on sequences stored raw values instead of
 elements

---
 flatland/schema/containers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index f19227b..45909d0 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -308,6 +308,10 @@ class Sequence(Container, list):
         for value in iterable:
             self.append(value)
 
+    def __iadd__(self, iterable):
+        self.extend(iterable)
+        return self
+
     def insert(self, index, value):
         """Insert *value* at *index*.
 
-- 
2.43.0


From 55dab51389fc7d63cc46104edb7be21fdfd64b36 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 08/59] fix: fq_name() of Array members was not an el() path

---
 flatland/schema/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index e17d4fe..d2bcefc 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -483,9 +483,18 @@ class Element(_BaseElement):
                 parts.append(mask)
                 mask = None
                 continue
-            parts.append(element.name)
+            parts.append(element._el_key)
         return sep + sep.join(parts)
 
+    @property
+    def _el_key(self):
+        """The key by which :meth:`el` finds this element in its parent."""
+        if isinstance(self.parent, list):
+            for index, member in enumerate(self.parent):
+                if member is self:
+                    return six.text_type(index)
+        return self.name
+
     def find(self, path, single=False, strict=True):
         """Find child elements by string path.
 
-- 
2.43.0


From 37fa4a769d3f68ad7076538b16ab6e72f03ec319 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 09/59] fix: set_flat crashed on a list index naming a
 container member

---
 flatland/schema/containers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 45909d0..8846def 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -575,7 +575,7 @@ class List(Sequence):
         for key, value in pairs:
             if value == u'' and prune:
                 continue
-            m = regex.match(key)
+            m = regex.match(key or u'')
             if not m:
                 continue
             try:
@@ -680,7 +680,7 @@ class Array(Sequence):
             regex = re.compile(u'^(%s(?:%s|$))' % (
                 re_uescape(self.name), re_uescape(sep)), re.UNICODE)
             for key, value in pairs:
-                m = regex.match(key)
+                m = regex.match(key or u'')
                 if not m:
                     continue
                 remainder = key[m.end():] or None
@@ -856,7 +856,7 @@ class Mapping(Container, dict):
                 if key == prefix:
                     # No flat representation of mappings, ignore.
                     pass
-                if key.startswith(prefix):
+                if key is not None and key.startswith(prefix):
                     # accept child element
                     possibles.append((key[plen:], value))
 
@@ -867,7 +867,7 @@ class Mapping(Container, dict):
             field = schema.name
             accum = []
             for key, value in possibles:
-                if key.startswith(field):
+                if key is not None and key.startswith(field):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From 8c9c816a2e192570ced1307f8f019790f039a96e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 10/59] fix: set_flat filled SparseDict fields whose name is a
 prefix of another field

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 8846def..9c8ad9f 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -867,7 +867,7 @@ class Mapping(Container, dict):
             field = schema.name
             accum = []
             for key, value in possibles:
-                if key is not None and key.startswith(field):
+                if key == field or key and key.startswith(field + sep):
                     accum.append((key, value))
             if accum:
                 if dict.__contains__(self, field):
-- 
2.43.0


From 0e96d775fee1ca585ad1c35140d314633b1956db Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 11/59] fix: Array.set_flat added blank members for keys that
 do not name its members

---
 flatland/schema/containers.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 9c8ad9f..59240f3 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -666,13 +666,12 @@ class Array(Sequence):
                "Flattened Arrays are only supported for scalar child types."
 
         if not self.name:
-            child_prefix = child_name or u''
             for key, value in pairs:
-                if prune and value == u'' and key == child_prefix:
-                    continue
                 if key == u'':
                     key = None
-                if child_name and key != child_name:
+                if key != child_name:
+                    continue
+                if prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(key, value)])
                 self.append(member)
@@ -684,11 +683,9 @@ class Array(Sequence):
                 if not m:
                     continue
                 remainder = key[m.end():] or None
-                if child_name and not remainder:
-                    continue
-                elif remainder and not child_name:
+                if remainder != child_name:
                     continue
-                elif prune and value == u'' and remainder == child_name:
+                if prune and value == u'':
                     continue
                 member = self.member_schema.from_flat([(remainder, value)])
                 self.append(member)
-- 
2.43.0


From 97e7566433774fe463f2129e94c300c693fd3166 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 12/59] fix: flatten() of a container repeated the members of
 JoinedStrings in it

---
 flatland/schema/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index d2bcefc..befb5fd 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -709,10 +709,15 @@ class Element(_BaseElement):
             pairs = [(self.flattened_name(sep), value(self))]
         else:
             pairs = []
-        if self.children_flattenable:
-            pairs.extend((e.flattened_name(sep), value(e))
-                         for e in self.all_children
-                         if e.flattenable)
+        queue = collections.deque([self])
+        while queue:
+            element = queue.popleft()
+            if not element.children_flattenable:
+                continue
+            for child in element.children:
+                if child.flattenable:
+                    pairs.append((child.flattened_name(sep), value(child)))
+                queue.append(child)
         return pairs
 
     def set(self, value):
-- 
2.43.0


From 783a7a85b3a9624105d6ff6a52504d47128a304b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 13/59] fix: a text default of a JoinedString was spread over
 one member per character

---
 flatland/schema/compound.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 230d35b..79b5f92 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -316,6 +316,11 @@ class JoinedString(Array, String):
             self.append(child)
         return all(success)
 
+    def set_default(self):
+        default = self.default_value
+        if default is not None and default is not Unspecified:
+            self.set(default)
+
     def _set_flat(self, pairs, sep):
         return Scalar._set_flat(self, pairs, sep)
 
-- 
2.43.0


From c888710e25faa5e0867edb97dc4d46a8eabb00ff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 14/59] fix: DateYYYYMMDD.set(None) kept the old date, and
 unusable values were reported as set

---
 flatland/schema/compound.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 79b5f92..7981cbd 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -234,14 +234,14 @@ class DateYYYYMMDD(Compound, Date):
 
     def explode(self, value):
         try:
-            value = Date.adapt(self, value)
-
-            for attrib, child_schema in zip(self.used, self.field_schema):
-                self[child_schema.name].set(
-                    getattr(value, attrib))
+            adapted, date = True, Date.adapt(self, value)
         except (AdaptationError, TypeError):
-            for child_schema in self.field_schema:
-                self[child_schema.name].set(None)
+            adapted, date = False, None
+
+        for attrib, child_schema in zip(self.used, self.field_schema):
+            self[child_schema.name].set(
+                None if date is None else getattr(date, attrib))
+        return adapted
 
 
 class JoinedString(Array, String):
-- 
2.43.0


From 6b0b457bde4b929a07c57fe45a4926dcee11678a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 15/59] fix: properties.setdefault ignored inherited values and
 returned the deletion marker

---
 flatland/schema/properties.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index 3e1981e..f515409 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -116,7 +116,11 @@ class _TypeLookup(DictLike):
         return current
 
     def setdefault(self, key, default):
-        return self._base_frame.setdefault(key, default)
+        try:
+            return self[key]
+        except KeyError:
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
@@ -209,7 +213,8 @@ class _InstanceLookup(DictLike):
         try:
             return self[key]
         except KeyError:
-            return self.local.setdefault(key, default)
+            self[key] = default
+            return default
 
     def update(self, *iterable, **values):
         simplified = dict(*iterable, **values)
-- 
2.43.0


From 4370994c435a5b0b2d398632a8bf267dc32f5332 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 16/59] fix: popping an instance property changed its class or
 returned the deletion marker

---
 flatland/schema/properties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index f515409..c03afd7 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -205,9 +205,13 @@ class _InstanceLookup(DictLike):
 
     def pop(self, key, *default):
         try:
-            return self.local.pop(key)
+            current = self[key]
         except KeyError:
-            return self.class_lookup.pop(key, *default)
+            if not default:
+                raise KeyError(key)
+            return default[0]
+        self[key] = Deleted
+        return current
 
     def setdefault(self, key, default):
         try:
-- 
2.43.0


From 285a5adc4a725a34a64359155ea4c7598a9dd665 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:40:07 +0000
Subject: [PATCH 17/59] fix: classes using the same Properties object shared
 their settings

---
 flatland/schema/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/properties.py b/flatland/schema/properties.py
index c03afd7..242057c 100644
--- a/flatland/schema/properties.py
+++ b/flatland/schema/properties.py
@@ -144,7 +144,7 @@ class _TypeLookup(DictLike):
             if cls not in self.map:
                 if member is None or id(member) != self.descriptor_id:
                     continue
-                self.map.setdefault(cls, member.initial_set)
+                self.map.setdefault(cls, dict(member.initial_set))
             yield self.map[cls]
             if member is not None and id(member) == self.descriptor_id:
                 break
@@ -158,7 +158,7 @@ class _TypeLookup(DictLike):
         if 'properties' in self.base.__dict__:
             member = self.base.__dict__['properties']
             if id(member) == self.descriptor_id:
-                return self.map.setdefault(self.base, member.initial_set)
+                return self.map.setdefault(self.base, dict(member.initial_set))
         return self.map.setdefault(self.base, {})
 
 
-- 
2.43.0


From f31f92d3392b7413689b0b1fc23bccbad372946b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 18/59] fix: set_flat made a list member for an index followed
 by a newline

---
 flatland/schema/containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 59240f3..e5bf81e 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -563,10 +563,10 @@ class List(Sequence):
             return
 
         if self.name:
-            regex = re.compile(u'^%s(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^%s(\\d+)(?:%s|\\Z)' % (
                 re_uescape(self.name + sep), re_uescape(sep)), re.UNICODE)
         else:
-            regex = re.compile(u'^(\\d+)(?:%s|$)' % (
+            regex = re.compile(u'^(\\d+)(?:%s|\\Z)' % (
                 re_uescape(sep)), re.UNICODE)
 
         indexes = defaultdict(list)
-- 
2.43.0


From 23ae5fc5162bbb696a8ac0ba4353bb8ae4074433 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:50:29 +0000
Subject: [PATCH 19/59] fix: dates and times with a trailing newline were
 accepted without stripping

---
 flatland/schema/scalars.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 6afd75b..74494bc 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -521,7 +521,7 @@ class DateTime(Temporal):
     type_ = datetime.datetime
     regex = re.compile(
         u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2}) '
-        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = (u'%(year)04i-%(month)02i-%(day)02i '
               u'%(hour)02i:%(minute)02i:%(second)02i')
     used = (u'year', u'month', u'day', u'hour', u'minute', u'second')
@@ -536,7 +536,7 @@ class Date(Temporal):
 
     type_ = datetime.date
     regex = re.compile(
-        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})$')
+        u'^(?P<year>\\d{4})-(?P<month>\\d{2})-(?P<day>\\d{2})\\Z')
     format = u'%(year)04i-%(month)02i-%(day)02i'
     used = (u'year', u'month', u'day')
 
@@ -550,7 +550,7 @@ class Time(Temporal):
 
     type_ = datetime.time
     regex = re.compile(
-        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})$')
+        u'^(?P<hour>\\d{2}):(?P<minute>\\d{2}):(?P<second>\\d{2})\\Z')
     format = u'%(hour)02i:%(minute)02i:%(second)02i'
     used = (u'hour', u'minute', u'second')
 
-- 
2.43.0


From f37be1d129255e5dd95b12b59c09c2e2234829e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 20/59] fix: unnamed scalars could not be restored from their
 own flattened pair

---
 flatland/schema/scalars.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 74494bc..3cdcdb2 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -122,7 +122,8 @@ class Scalar(Element):
 
     def _set_flat(self, pairs, sep):
         for key, value in pairs:
-            if key == self.name:
+            # an unnamed element flattens to an empty key
+            if key == self.name or (not key and self.name is None):
                 self.set(value)
                 break
 
-- 
2.43.0


From 8aac16a1f3b6d3d5eda604969eaac8f8b201c203 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 21/59] fix: setting NaN on an unsigned Decimal raised
 InvalidOperation

---
 flatland/schema/scalars.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 3cdcdb2..1fbc935 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -247,12 +247,13 @@ class Number(Scalar):
             value = value.strip()  # decimal.Decimal doesn't like whitespace
         try:
             native = self.type_(value)
+            # ordering a decimal NaN is an ArithmeticError, too
+            negative = not self.signed and native < 0
         except (ValueError, TypeError, ArithmeticError):
             raise AdaptationError()
         else:
-            if not self.signed:
-                if native < 0:
-                    raise AdaptationError()
+            if negative:
+                raise AdaptationError()
             return native
 
     def serialize(self, value):
-- 
2.43.0


From d498ef32b6928d76c872d558ffb5b790d03cf892 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 22/59] fix: setting a signaling NaN on a Decimal raised
 TypeError

---
 flatland/schema/scalars.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 1fbc935..06c6d49 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -311,6 +311,14 @@ class Decimal(Number):
     format = u'%f'
     """``u'%f'``"""
 
+    def adapt(self, value):
+        """Generic numeric coercion, refusing signaling NaNs."""
+        native = Number.adapt(self, value)
+        # signaling NaNs can not be used in any operation, formatting included
+        if native is not None and native.is_snan():
+            raise AdaptationError()
+        return native
+
 
 class Boolean(Scalar):
     """Element type for Python's ``bool``."""
-- 
2.43.0


From eeab460b044981113b1d707aaf8e3aa9a07ae9a8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:48:57 +0000
Subject: [PATCH 23/59] fix: setting undecodable bytes on a String raised
 UnicodeDecodeError

---
 flatland/schema/scalars.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index 06c6d49..bbdeb8d 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -181,10 +181,11 @@ class String(Scalar):
         """
         if value is None:
             return None
-        elif self.strip:
-            return six.text_type(value).strip()
-        else:
-            return six.text_type(value)
+        try:
+            value = six.text_type(value)
+        except UnicodeDecodeError:
+            raise AdaptationError()
+        return value.strip() if self.strip else value
 
     def serialize(self, value):
         """Return a Unicode representation.
-- 
2.43.0


From fa008bfc7f26f77c93188f67cbd6722b597390d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 24/59] fix: path slices ending at 0 selected everything

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index ad40bd7..85ca99e 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -186,7 +186,7 @@ def _parse_slice(pattern):
 
     segs = pattern.split(':', 2)
     start = segs[0] and int(segs[0]) or 0
-    stop = segs[1] and int(segs[1]) or None
+    stop = int(segs[1]) if segs[1] else None
 
     if len(segs) < 3:
         return (SLICE, slice(start, stop))
-- 
2.43.0


From 64a434f4c0ce4a67f4bd52f250ef17124133ad30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 25/59] fix: strict path lookups ignored missing negative
 indexes

---
 flatland/schema/paths.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 85ca99e..9228a12 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -176,13 +176,7 @@ def _parse_slice(pattern):
     if pattern == ':' or pattern == '::':
         return (SLICE, slice(None))
     elif ':' not in pattern:
-        if not pattern.startswith('-'):
-            return (NAME, pattern)
-        else:
-            offset = int(pattern)
-            if offset == -1:
-                return (SLICE, slice(offset, None))
-            return (SLICE, slice(offset, offset + 1))
+        return (NAME, pattern)
 
     segs = pattern.split(':', 2)
     start = segs[0] and int(segs[0]) or 0
-- 
2.43.0


From b825e5ba4768542c0237e31927c644355df4823c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 26/59] fix: malformed slices in paths raised ValueError

---
 flatland/schema/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/paths.py b/flatland/schema/paths.py
index 9228a12..4546eef 100644
--- a/flatland/schema/paths.py
+++ b/flatland/schema/paths.py
@@ -21,7 +21,7 @@ _tokenize_re = re.compile(r"""
     | # /
       (?<!\\)/
     | # [1:2:3]
-      (?<!\\)\[(-?\d*:?-?\d*\:?-?\d*)(?<!\\)\](?=$|/|\[)
+      (?<!\\)\[(-?\d+|(?:-?\d+)?:(?:-?\d+)?(?::(?:-?\d+)?)?)\](?=$|/|\[)
     | # [bogus]
       (?<!\\)\[[^\]]*(?<!\\)\](?=$|/|\[)
     | # . or .. at start
-- 
2.43.0


From f4fa7017956df6084959ac2c499c808a3e03d5a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:26:34 +0000
Subject: [PATCH 27/59] fix: validate(recurse=False) forgot a failed descent
 validation

---
 flatland/schema/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/schema/base.py b/flatland/schema/base.py
index befb5fd..1b2d6aa 100644
--- a/flatland/schema/base.py
+++ b/flatland/schema/base.py
@@ -814,9 +814,9 @@ class Element(_BaseElement):
             up = self._validate(state, False)
             # an Unevaluated ascent validator does not override the results
             # of descent validation
-            if up is not Unevaluated:
+            if up is not Unevaluated and self.valid:
                 self.valid = bool(up)
-            return self.valid
+            return bool(self.valid)
 
         valid = True
         elements, seen, queue = [], set(), collections.deque([self])
-- 
2.43.0


From 2080082ef56f8edaeb33bf4933ee1bfbc87d71c3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 28/59] fix: set_by_object() omitted attributes that are
 renamed

---
 flatland/schema/containers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index e5bf81e..6d084dd 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1086,7 +1086,9 @@ class Dict(Mapping, dict):
                                   if value in attributes)
         if omit:
             omit = list(omit)
-            attributes.difference_update(omit)
+            # renamed attributes are always included
+            attributes.difference_update(
+                set(omit).difference(key for key, value in rename or ()))
 
         possible = ((attr, getattr(obj, attr))
                     for attr in attributes
-- 
2.43.0


From 7bbd0d901e1466969f4da5ab18fcf971346a13fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:03:05 +0000
Subject: [PATCH 29/59] fix: set_by_object() ignored the fields a SparseDict
 does not hold yet

---
 flatland/schema/containers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/schema/containers.py b/flatland/schema/containers.py
index 6d084dd..a8b2dac 100644
--- a/flatland/schema/containers.py
+++ b/flatland/schema/containers.py
@@ -1078,7 +1078,7 @@ class Dict(Mapping, dict):
           >>> new_user = User(**user_keywords)
 
         """
-        fields = set(six.iterkeys(self))
+        fields = set(self.field_schema_mapping)
         attributes = fields.copy()
         if rename:
             rename = list(to_pairs(rename))
-- 
2.43.0


From f2ad9613722e29ef00093580c74cdaab872fc316 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:17:31 +0000
Subject: [PATCH 30/59] fix: Refs kept reading a target that was replaced after
 the first access

---
 flatland/schema/scalars.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index bbdeb8d..f9b313f 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -10,7 +10,6 @@ from flatland.util import (
     as_mapping,
     autodocument_from_superclasses,
     class_cloner,
-    lazy_property,
     )
 from .base import Element
 import six
@@ -593,7 +592,7 @@ class Ref(Scalar):
 
     #######################################################################
 
-    @lazy_property
+    @property
     def target(self):
         return self.root.el(self.target_path)
 
-- 
2.43.0


From 157d02aa4067f1b10aaf6496ceaec9f2b3346996 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:19:12 +0000
Subject: [PATCH 31/59] fix: set_default() wrote the missing default of a Ref
 to its target

---
 flatland/schema/scalars.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index f9b313f..a420057 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -575,6 +575,9 @@ class Ref(Scalar):
 
     target_path = None
 
+    #: set_default() leaves the target alone unless the Ref has a default
+    default = Unspecified
+
     @class_cloner
     def to(cls, name, sep=Unspecified):
         if sep is Unspecified:
-- 
2.43.0


From 1d8312ee261dcac64c3af91e503a32029c2431cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:20:11 +0000
Subject: [PATCH 32/59] fix: Ref.set() failed with AttributeError when the
 target is a container

---
 flatland/schema/scalars.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/flatland/schema/scalars.py b/flatland/schema/scalars.py
index a420057..73c7837 100644
--- a/flatland/schema/scalars.py
+++ b/flatland/schema/scalars.py
@@ -587,6 +587,16 @@ class Ref(Scalar):
             raise TypeError("Could not parse path %r" % name)
         return cls
 
+    def set(self, value):
+        """Set the target if writable, whatever type of element it is."""
+        self.raw = value
+        if self.writable == 'ignore':
+            return True
+        elif self.writable:
+            return self.target.set(value)
+        else:
+            raise TypeError(u'Ref "%s" is not writable.' % self.name)
+
     def adapt(self, value):
         return self.target.adapt(value)
 
-- 
2.43.0


From 703461807cd9b9e59ce4537a131e1a2841147bb0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 33/59] fix: a refused setting left Generator.set() half done

---
 flatland/out/markup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index 2a18721..d20c723 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -67,10 +67,11 @@ class Generator(Context):
 
         """
 
-        for key, value in settings.items():
+        for key in settings:
             if key not in self:
                 raise TypeError(
                     "%r is not a valid argument." % key)
+        for key, value in settings.items():
             if key.startswith('auto_'):
                 value = parse_trool(value)
             self[key] = value
-- 
2.43.0


From e9fcdd885d37937190c775f6d0f33ccf5f92b262 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 34/59] fix: tag('input') and the like were not written as
 input() and the like

---
 flatland/out/markup.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/flatland/out/markup.py b/flatland/out/markup.py
index d20c723..946601d 100644
--- a/flatland/out/markup.py
+++ b/flatland/out/markup.py
@@ -7,6 +7,12 @@ import six
 
 _default_settings = {u'ordered_attributes': True}
 _static_attribute_order = [u'type', u'name', u'value']
+# (empty_in_html, always_paired), for tags generated by name
+_tag_styles = {u'input': (True, False),
+               u'form': (False, True),
+               u'textarea': (False, True),
+               u'select': (False, True),
+               u'option': (False, True)}
 
 
 class Generator(Context):
@@ -198,10 +204,11 @@ class Generator(Context):
         if isinstance(tagname, str):  # pragma: nocover
             tagname = six.text_type(tagname)
         tagname = tagname.lower()
+        tag = self._tag(tagname, *_tag_styles.get(tagname, ()))
         if bind is None and not attributes:
-            return self._tag(tagname)
+            return tag
         else:
-            return self._tag(tagname)(bind, **attributes)
+            return tag(bind, **attributes)
 
     def _tag(self, tagname, empty_in_html=False, always_paired=False):
         if self._tags[tagname]:
-- 
2.43.0


From 1bc568489a26ea2932fa15d39f90c3dbc2a3af2a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:09 +0000
Subject: [PATCH 35/59] fix: checkboxes and radio buttons without a value could
 be checked

---
 flatland/out/generic.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/flatland/out/generic.py b/flatland/out/generic.py
index 422e6f8..9da921d 100644
--- a/flatland/out/generic.py
+++ b/flatland/out/generic.py
@@ -130,12 +130,11 @@ def transform_value(tagname, attributes, contents, context, bind):
     if tagname == u'input':
         subtype = attributes.get(u'type', u'')
         if subtype in (u'radio', u'checkbox'):
-            if subtype == u'checkbox':
-                current = attributes.get(u'value')
-                if current is None and isinstance(bind, Boolean):
-                    attributes[u'value'] = current = bind.true
-            else:
-                current = attributes.get(u'value', u'')
+            current = attributes.get(u'value')
+            if current is None:
+                if subtype != u'checkbox' or not isinstance(bind, Boolean):
+                    return contents
+                attributes[u'value'] = current = bind.true
 
             if isinstance(bind, Array):
                 toggle = current in bind
-- 
2.43.0


From 713b51d3f59db8b26b12c0faba778413b4da78a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:49:05 +0000
Subject: [PATCH 36/59] fix: a compound class counted as initialised once its
 base's hook was through

---
 flatland/schema/compound.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 7981cbd..114de31 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -65,7 +65,9 @@ def _wrap_compound_init(fn):
         fn = fn.__get__(str).__func__  # type doesn't matter here
     def __compound_init__(cls):
         res = fn(cls)
-        cls._compound_prepared = True
+        # not prepared yet if this was called by the hook of a subclass
+        if cls.__compound_init__.__func__ is __compound_init__:
+            cls._compound_prepared = True
         return res
     update_wrapper(__compound_init__, fn)
     return classmethod(__compound_init__)
-- 
2.43.0


From e5e81811e562f082cbcc568271d4a3c650116a4c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:08:04 +0000
Subject: [PATCH 37/59] fix: form:set inside py:for or py:with outlives the
 loop like any other

The render context was stored in the innermost template frame, so settings
and tabindex counts made there were lost if it was the first flatland
directive of the template.
---
 flatland/out/genshi.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5423b0f..c283984 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -207,10 +207,7 @@ class With(RenderContextManipulator):
     __slots__ = ()
 
     def process(self, stream, directives, ctxt, vars):
-        try:
-            render_context = ctxt['flatland_render_context']
-        except KeyError:
-            ctxt['flatland_render_context'] = render_context = Context()
+        render_context = _get_render_context(ctxt)
 
         if 'filters' not in self.attributes:
             attrs = self.attributes
@@ -232,10 +229,7 @@ class Set(RenderContextManipulator):
     __slots__ = ()
 
     def process(self, stream, directives, ctxt, vars):
-        try:
-            render_context = ctxt['flatland_render_context']
-        except KeyError:
-            ctxt['flatland_render_context'] = render_context = Context()
+        render_context = _get_render_context(ctxt)
         render_context.update(self.attributes)
         assert not directives
         return stream
@@ -258,6 +252,16 @@ class FlatlandElements(DirectiveFactory):
     ]
 
 
+def _get_render_context(ctxt):
+    # Stored in the outermost frame: this first use may be inside of a py:for
+    # or py:with, whose frame goes away long before the rendering is done.
+    render_context = ctxt.get('flatland_render_context')
+    if render_context is None:
+        render_context = Context()
+        ctxt.frames[-1]['flatland_render_context'] = render_context
+    return render_context
+
+
 def _rewrite_stream(stream, directives, ctxt, vars, bind):
     stream = list(stream)
     mutable_attrs = {}
@@ -280,10 +284,7 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
 
-    try:
-        render_context = ctxt['flatland_render_context']
-    except KeyError:
-        ctxt['flatland_render_context'] = render_context = Context()
+    render_context = _get_render_context(ctxt)
 
     new_contents = transform(tagname.localname, mutable_attrs, contents,
                              render_context, bind)
-- 
2.43.0


From c3c4fd8269616ebd47ea52807517bee1446aaf3a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:08:04 +0000
Subject: [PATCH 38/59] fix: form:set evaluates filters as form:with does

---
 flatland/out/genshi.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index c283984..3c79231 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -201,6 +201,14 @@ class RenderContextManipulator(TagOnly):
         TagOnly.__init__(self, transformed, template, namespaces,
                          lineno, offset)
 
+    def evaluate(self, ctxt, vars):
+        if 'filters' not in self.attributes:
+            return self.attributes
+        attrs = self.attributes.copy()
+        attrs['filters'] = _eval_expr(Expression(attrs['filters']),
+                                      ctxt, vars)
+        return attrs
+
 
 class With(RenderContextManipulator):
     _name = 'with'
@@ -209,13 +217,7 @@ class With(RenderContextManipulator):
     def process(self, stream, directives, ctxt, vars):
         render_context = _get_render_context(ctxt)
 
-        if 'filters' not in self.attributes:
-            attrs = self.attributes
-        else:
-            attrs = self.attributes.copy()
-            attrs['filters'] = _eval_expr(Expression(attrs['filters']),
-                                          ctxt, vars)
-
+        attrs = self.evaluate(ctxt, vars)
         render_context.push()
         render_context.update(attrs)
         assert not directives
@@ -230,7 +232,7 @@ class Set(RenderContextManipulator):
 
     def process(self, stream, directives, ctxt, vars):
         render_context = _get_render_context(ctxt)
-        render_context.update(self.attributes)
+        render_context.update(self.evaluate(ctxt, vars))
         assert not directives
         return stream
 
-- 
2.43.0


From ae54fc5dc7e7e034d1d4defdcc1542f3cd7a016d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:08:04 +0000
Subject: [PATCH 39/59] fix: a filter that clears the contents of a Genshi tag
 clears them

---
 flatland/out/genshi.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 3c79231..8c1e201 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -313,8 +313,7 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
         else:  # pragma: nocover
             sub_tag = QName('option')
         new_contents = _bind_unbound_tags(new_contents, sub_tag, bind)
-    if new_contents:
-        stream[1:-1] = new_contents
+    stream[1:-1] = new_contents
     return iter(stream)
 
 
-- 
2.43.0


From 8cbcd61331de0a0edf123b53fcb4211a0bc12c69 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:08:04 +0000
Subject: [PATCH 40/59] fix: options of a bound select may have directives of
 their own

A form:auto-* control or py:attrs on such an option was handed the wrapped
tag instead of the tag and failed.
---
 flatland/out/genshi.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 8c1e201..6c171a2 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -334,7 +334,16 @@ def _bind_unbound_tags(stream, qname, bind):
                 if isinstance(d, Binding):
                     break
             else:
-                substream = list(_bind_unbound_tags(substream, qname, bind))
+                if (_is_element(substream, qname) and
+                    not any(isinstance(d, TagOnly) for d in directives)):
+                    # bind the tag along with its other directives: they
+                    # expect a tag, and may control how it is transformed.
+                    directives = [Binding(u'', bind=bind)] + directives
+                    contents = _bind_unbound_tags(substream[1:-1], qname, bind)
+                    substream = substream[:1] + list(contents) + substream[-1:]
+                else:
+                    substream = list(
+                        _bind_unbound_tags(substream, qname, bind))
             yield kind, (directives, substream), pos
         elif kind is START:
             if data[0] != qname or qname in data[1]:
@@ -359,6 +368,21 @@ def _bind_unbound_tags(stream, qname, bind):
             yield kind, data, pos
 
 
+def _is_element(stream, qname):
+    """True if *stream* is a single, whole *qname* element."""
+    depth = 0
+    for idx, (kind, data, pos) in enumerate(stream):
+        if kind is START:
+            if depth == 0 and data[0] != qname:
+                return False
+            depth += 1
+        elif kind is END:
+            depth -= 1
+        if depth == 0:
+            return kind is END and idx == len(stream) - 1
+    return False
+
+
 def _simplify_stream(stream, ctxt, vars):
     # consumes stream, send a list
     parts = []
-- 
2.43.0


From 062da778896ae44b968550e6285e3798201fafb0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 41/59] fix: markup in the contents of a bound Genshi tag stays
 markup

Expressions that produced markup were turned into plain text, and escaped
in the output.
---
 flatland/out/genshi.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 6c171a2..1c6c699 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -1,7 +1,14 @@
 from __future__ import absolute_import
 from collections import deque
 
-from genshi.core import Namespace, QName, END, START, TEXT
+from genshi.core import (
+    END,
+    Markup as GenshiMarkup,
+    Namespace,
+    QName,
+    START,
+    TEXT,
+)
 from genshi.template.base import (
     DirectiveFactory,
     EXPR,
@@ -14,7 +21,12 @@ from genshi.template.directives import Directive
 from genshi.template.interpolation import interpolate
 
 
-from flatland.out.generic import _unpack, transform, Context
+from flatland.out.generic import (
+    Context,
+    _markup_escape,
+    _unpack,
+    transform,
+)
 import six
 
 
@@ -266,6 +278,7 @@ def _get_render_context(ctxt):
 
 def _rewrite_stream(stream, directives, ctxt, vars, bind):
     stream = list(stream)
+    render_context = _get_render_context(ctxt)
     mutable_attrs = {}
 
     for control_attribute in directives:
@@ -275,7 +288,8 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
     if len(stream) == 2:
         contents = None
     else:
-        contents = _simplify_stream(stream[1:-1], ctxt, vars)
+        contents = _simplify_stream(stream[1:-1], ctxt, vars,
+                                    render_context['markup_wrapper'])
 
     existing_attributes = {}
     for qname, value in attrs:
@@ -286,8 +300,6 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
 
-    render_context = _get_render_context(ctxt)
-
     new_contents = transform(tagname.localname, mutable_attrs, contents,
                              render_context, bind)
 
@@ -383,16 +395,22 @@ def _is_element(stream, qname):
     return False
 
 
-def _simplify_stream(stream, ctxt, vars):
-    # consumes stream, send a list
+def _simplify_stream(stream, ctxt, vars, markup_wrapper=None):
+    # consumes stream, send a list.  text that includes markup comes back as
+    # markup if there is a wrapper for it.
     parts = []
+    has_markup = False
     for idx, (kind, data, pos) in enumerate(stream):
         if kind is TEXT:
             parts.append(data)
         elif kind is EXPR:
             value = _eval_expr(data, ctxt, vars)
-            if hasattr(value, '__html__'):
-                value = _unpack(value)
+            if hasattr(value, '__html__') or isinstance(value, GenshiMarkup):
+                if not isinstance(value, GenshiMarkup):
+                    value = _unpack(value)
+                if markup_wrapper is not None:
+                    has_markup = True
+                    value = markup_wrapper(value)
             if hasattr(value, '__next__') or hasattr(value, 'next'):
                 while hasattr(value, '__next__') or hasattr(value, 'next'):
                     value = list(value)
@@ -406,4 +424,7 @@ def _simplify_stream(stream, ctxt, vars):
             parts.append(value)
         else:
             return stream
+    if has_markup:
+        return markup_wrapper(
+            u''.join(_markup_escape(part) for part in parts))
     return u''.join(parts)
-- 
2.43.0


From f2d7ab8663719889d74972bbf613919471540727 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:13:02 +0000
Subject: [PATCH 42/59] fix: a py:def call may be all there is inside of a
 bound Genshi tag

What it produced was taken for a piece of text if it was a single event.
---
 flatland/out/genshi.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 1c6c699..5578b4f 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -417,8 +417,8 @@ def _simplify_stream(stream, ctxt, vars, markup_wrapper=None):
                     value = _simplify_stream(value, ctxt, vars)
                 if not isinstance(value, six.text_type):
                     stream[idx:idx + 1] = value
-                else:
-                    stream[idx] = (TEXT, value, pos)
+                    return stream
+                stream[idx] = (TEXT, value, pos)
             elif not isinstance(value, six.text_type):
                 value = six.text_type(value)
             parts.append(value)
-- 
2.43.0


From 85238c56a6a5485fc2ee07f6d4f6adb92d79ea7f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 43/59] fix: expressions in bound Genshi tags are rendered as
 in any other tag

An attribute of None was rendered as "None" instead of left out, and so
were contents; lists and generators of anything but events were shown as
their repr or failed.
---
 flatland/out/genshi.py | 43 +++++++++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 17 deletions(-)

diff --git a/flatland/out/genshi.py b/flatland/out/genshi.py
index 5578b4f..5044311 100644
--- a/flatland/out/genshi.py
+++ b/flatland/out/genshi.py
@@ -8,6 +8,7 @@ from genshi.core import (
     QName,
     START,
     TEXT,
+    _ensure,
 )
 from genshi.template.base import (
     DirectiveFactory,
@@ -296,6 +297,9 @@ def _rewrite_stream(stream, directives, ctxt, vars, bind):
         if qname.namespace is None:
             if not isinstance(value, six.text_type):
                 value = _simplify_stream(value, ctxt, vars)
+                if value is None:
+                    attrs -= qname
+                    continue
                 attrs |= ((qname, value),)
             existing_attributes[qname.localname] = qname
             mutable_attrs[qname.localname] = value
@@ -399,32 +403,37 @@ def _simplify_stream(stream, ctxt, vars, markup_wrapper=None):
     # consumes stream, send a list.  text that includes markup comes back as
     # markup if there is a wrapper for it.
     parts = []
-    has_markup = False
     for idx, (kind, data, pos) in enumerate(stream):
         if kind is TEXT:
-            parts.append(data)
+            value = data
         elif kind is EXPR:
+            # as in Template._flatten
             value = _eval_expr(data, ctxt, vars)
-            if hasattr(value, '__html__') or isinstance(value, GenshiMarkup):
-                if not isinstance(value, GenshiMarkup):
-                    value = _unpack(value)
-                if markup_wrapper is not None:
-                    has_markup = True
-                    value = markup_wrapper(value)
-            if hasattr(value, '__next__') or hasattr(value, 'next'):
-                while hasattr(value, '__next__') or hasattr(value, 'next'):
-                    value = list(value)
-                    value = _simplify_stream(value, ctxt, vars)
-                if not isinstance(value, six.text_type):
+            if value is None:
+                continue
+            if hasattr(value, '__html__'):
+                value = GenshiMarkup(_unpack(value))
+            elif (not isinstance(value, six.string_types) and
+                  hasattr(value, '__iter__')):
+                value = _simplify_stream(list(_ensure(value)), ctxt, vars,
+                                         markup_wrapper)
+                if isinstance(value, list):
                     stream[idx:idx + 1] = value
                     return stream
+                if value is None:
+                    continue
                 stream[idx] = (TEXT, value, pos)
-            elif not isinstance(value, six.text_type):
-                value = six.text_type(value)
-            parts.append(value)
         else:
             return stream
-    if has_markup:
+        if markup_wrapper is not None and isinstance(value, GenshiMarkup):
+            value = markup_wrapper(value)
+        elif not isinstance(value, six.text_type):
+            value = six.text_type(value)
+        parts.append(value)
+    if not parts:
+        return None
+    if (markup_wrapper is not None and
+        any(hasattr(part, '__html__') for part in parts)):
         return markup_wrapper(
             u''.join(_markup_escape(part) for part in parts))
     return u''.join(parts)
-- 
2.43.0


From b4b8e202a5e613639a5a2d672f9571971b4c9ec1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 44/59] fix: a state that is not a mapping stopped the search
 for translators

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 4d6c342..32b5b59 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -186,7 +186,7 @@ class Validator(object):
         if hasattr(state, '__getitem__'):
             try:
                 return state[type]
-            except KeyError:
+            except (LookupError, TypeError):
                 pass
 
         if type == 'ugettext':
-- 
2.43.0


From db422db452df8bed24c7cd5484001efab33d6df8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 45/59] fix: a plural count of non-numeric text raised
 ValueError

---
 flatland/validation/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 32b5b59..5e12dac 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -243,7 +243,7 @@ class Validator(object):
                 n = format_map[n_key]
                 try:
                     n = int(n)
-                except TypeError:
+                except (TypeError, ValueError):
                     pass
             except KeyError:
                 n = n_key
-- 
2.43.0


From f7556473f4d33c5e4e80908fa087308244ced03e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 46/59] fix: methods of a plain dict were found before
 attributes of the validator

---
 flatland/validation/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/validation/base.py b/flatland/validation/base.py
index 5e12dac..3f394b7 100644
--- a/flatland/validation/base.py
+++ b/flatland/validation/base.py
@@ -288,6 +288,9 @@ class as_format_mapping(object):
                     break
                 except (LookupError, TypeError):
                     pass
+            # the attributes of a plain dict are the dict's own methods
+            if type(target) is dict:
+                continue
             # then target.item
             try:
                 value = getattr(target, item)
-- 
2.43.0


From 3c236e0b5bb19bf5fcaf3a1415233f3ae0305f6f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 47/59] fix: MapEqual failed with its own default transform

---
 flatland/validation/scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/scalars.py b/flatland/validation/scalars.py
index 3afc28f..a85162b 100644
--- a/flatland/validation/scalars.py
+++ b/flatland/validation/scalars.py
@@ -544,7 +544,7 @@ class MapEqual(Validator):
     unequal = N_(u'%(labels)s and %(last_label)s do not match.')
 
     field_paths = ()
-    transform = lambda el: el
+    transform = staticmethod(lambda el: el)
 
     def __init__(self, *field_paths, **kw):
         """Construct a MapEqual.
-- 
2.43.0


From ffaa70c84f625368fd23eecddb9804ecb8601fe8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 48/59] fix: HasAtLeast, HasAtMost and HasBetween count members

---
 flatland/validation/containers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/flatland/validation/containers.py b/flatland/validation/containers.py
index 8b0cf44..ce3a35d 100644
--- a/flatland/validation/containers.py
+++ b/flatland/validation/containers.py
@@ -152,7 +152,7 @@ class HasAtLeast(Validator):
         if not self.minimum:
             return True
 
-        if element.value is None or len(element.value) < self.minimum:
+        if len(element) < self.minimum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -201,7 +201,7 @@ class HasAtMost(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        if element.value and len(element.value) > self.maximum:
+        if len(element) > self.maximum:
             child_label = element.member_schema.label
             return self.note_error(element, state, 'failure',
                                    child_label=child_label)
@@ -279,8 +279,7 @@ class HasBetween(Validator):
         assert hasattr(element, 'member_schema'), (
             'container-length validator is only applicable to sequence types.')
 
-        length = len(element.value) if element.value is not None else 0
-        if self.minimum <= length <= self.maximum:
+        if self.minimum <= len(element) <= self.maximum:
             return True
 
         message = 'exact' if self.minimum == self.maximum else 'range'
-- 
2.43.0


From c7991a5f0dcd60c7d9b8aa993e931a0d630b58e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 49/59] fix: luhn10 of a negative number never ended

---
 flatland/util/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flatland/util/base.py b/flatland/util/base.py
index 8ae812e..7a7a5be 100644
--- a/flatland/util/base.py
+++ b/flatland/util/base.py
@@ -221,6 +221,9 @@ def re_uescape(pattern):
 def luhn10(number):
     """Return True if the number passes the Luhn checksum algorithm."""
 
+    if number < 0:
+        return False
+
     sum = 0
     while number:
         r = number % 100
-- 
2.43.0


From e6ab478fb7732f9171fbddf56464e9cf7d653e67 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 50/59] fix: HTTPURLValidator did not require a scheme

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index cf5a2a1..c9be2d4 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -250,7 +250,7 @@ class HTTPURLValidator(Validator):
 
     all_parts = ('scheme', 'username', 'password', 'hostname', 'port',
                  'path', 'params', 'query', 'fragment')
-    required_parts = dict(schema=('http', 'https'), hostname=True)
+    required_parts = dict(scheme=('http', 'https'), hostname=True)
     forbidden_parts = dict(username=True, password=True)
     urlparse = urlparse
 
-- 
2.43.0


From dfe186229882b5b264169a4ab626e5a7688105f5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 51/59] fix: a URL that cannot be parsed raised ValueError

---
 flatland/validation/network.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index c9be2d4..ac6f398 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -258,7 +258,10 @@ class HTTPURLValidator(Validator):
         url = element.value
         if url is None:
             return True
-        parsed = self.urlparse.urlparse(url)
+        try:
+            parsed = self.urlparse.urlparse(url)
+        except Exception:
+            return self.note_error(element, state, 'bad_format')
 
         for part in self.all_parts:
             try:
-- 
2.43.0


From 35edb0941ea6c12ff1caee53b4667060a00979f5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 52/59] fix: an empty URL part passed as a required one

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index ac6f398..d5db309 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -272,7 +272,7 @@ class HTTPURLValidator(Validator):
                 return self.note_error(element, state, 'bad_format')
             required = self.required_parts.get(part)
             if required is True:
-                if value is None:
+                if not value:
                     return self.note_error(element, state, 'required_part')
             elif required:
                 if value not in required:
-- 
2.43.0


From cbf25d570361dec288dd33d9796228fe15d410a0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 53/59] fix: IsEmail accepted a newline at the end

---
 flatland/validation/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/validation/network.py b/flatland/validation/network.py
index d5db309..b3bdaa3 100644
--- a/flatland/validation/network.py
+++ b/flatland/validation/network.py
@@ -67,7 +67,7 @@ class IsEmail(Validator):
 
     local_part_pattern = None
 
-    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+$',
+    domain_pattern = re.compile('^(?:[a-z0-9\\-]+\\.)*[a-z0-9\\-]+\\Z',
                                 re.IGNORECASE)
 
     def validate(self, element, state):
-- 
2.43.0


From 52b91213460357bb16ff2d0764aa507cf18a14fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 54/59] fix: NANPphone with extensions raised TypeError

---
 flatland/validation/string.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/flatland/validation/string.py b/flatland/validation/string.py
index 8ef3c59..43467ea 100644
--- a/flatland/validation/string.py
+++ b/flatland/validation/string.py
@@ -39,8 +39,10 @@ class NANPphone(Validator):
         else:
             if not self.extensions:
                 return self.note_error(element, state, 'noext')
-            value = self.fmt_ext % (value[0:3], value[3:6], value[6:10],
-                                    value[10:])
+            value = self.fmt_ext % (int(value[0:3]),
+                                    int(value[3:6]),
+                                    int(value[6:10]),
+                                    int(value[10:]))
 
         element.set(value)
         return True
-- 
2.43.0


From 99a456ee165d383a9b3d13f56a53a7b81884ea28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 55/59] fix: a card type that is not accepted raised TypeError

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 485665d..2e8158c 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -67,7 +67,7 @@ class CreditCardNumber(Long):
 
             return u'We accept %s' % types
 
-        not_accepted = _formatter
+        not_accepted = staticmethod(_formatter)
 
         def validate(self, element, state):
             type_ = _card_type(element.value)
-- 
2.43.0


From e6eb034f3a180f38b3174c86eedc2a64e868b055 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 56/59] fix: the list of accepted card types named the last one
 twice

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 2e8158c..f8cab8d 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -58,7 +58,7 @@ class CreditCardNumber(Long):
         def _formatter(element, state):
             accepted = element.accepted
             if len(accepted) > 2:
-                types = (', '.join(label for label, in accepted) +
+                types = (', '.join(label for label, in accepted[:-1]) +
                        ', and ' + accepted[-1][0])
             elif len(accepted) == 2:
                 types = ' and '.join(label for label, in accepted)
-- 
2.43.0


From 8a35036d784b83e856162535e2f80b418fe5224b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 57/59] fix: 13 digit Visa numbers were not recognised

---
 flatland/ext/creditcard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index f8cab8d..448a069 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -76,7 +76,7 @@ class CreditCardNumber(Long):
 
             return self.note_error(element, state, 'not_accepted')
 
-_re_visa = re.compile(r'^4\d{12}\d{3}?$')
+_re_visa = re.compile(r'^4\d{12}(?:\d{3})?$')
 _re_mc   = re.compile(r'^5[1-5]\d{14}$')
 _re_amex = re.compile(r'^3[47]\d{13}$')
 _re_disc = re.compile(r'^6011\d{12}$')
-- 
2.43.0


From 84fde46ab01e5f0e460b400d8b7ac485d3199980 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:20:33 +0000
Subject: [PATCH 58/59] fix: a card number of blanks and dashes only raised
 ValueError

---
 flatland/ext/creditcard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flatland/ext/creditcard.py b/flatland/ext/creditcard.py
index 448a069..5592e1f 100644
--- a/flatland/ext/creditcard.py
+++ b/flatland/ext/creditcard.py
@@ -111,7 +111,8 @@ def _from_string(number):
     if not _re_filler.match(number):
         return None
 
-    return int(_re_strip.sub(u'', six.text_type(number)))
+    digits = _re_strip.sub(u'', six.text_type(number))
+    return int(digits) if digits else None
 
 def _pretty_print(number):
     if number is None:
-- 
2.43.0


From 7b438658167b7c1c51237b80c583e24b2851fd0c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:53:37 +0000
Subject: [PATCH 59/59] fix: make a DateYYYYMMDD's parts anew for subclasses of
 an initialized class

The parts made at the first instantiation were inherited by every class
derived from it later, so DateYYYYMMDD.using(optional=True) had optional
parts only as long as no plain DateYYYYMMDD had been instantiated before.
---
 flatland/schema/compound.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/flatland/schema/compound.py b/flatland/schema/compound.py
index 114de31..049fe57 100644
--- a/flatland/schema/compound.py
+++ b/flatland/schema/compound.py
@@ -197,13 +197,22 @@ class Compound(six.with_metaclass(_MetaCompound, _CompoundBase)):
 
 class DateYYYYMMDD(Compound, Date):
 
+    # the field_schema before and after __compound_init__ made missing parts
+    _given_fields = _completed_fields = None
+
     @classmethod
     def __compound_init__(cls):
-        assert len(cls.field_schema) < 4
-        if len(cls.field_schema) == 3:
+        given = cls.field_schema
+        if given is cls._completed_fields:
+            # inherited from a class that was initialized before.  The parts
+            # made for that class are made anew, with the options of this one.
+            given = cls._given_fields
+
+        assert len(given) < 4
+        if len(given) == 3:
             return
 
-        fields = list(cls.field_schema)
+        fields = list(given)
         optional = cls.optional
 
         if len(fields) == 0:
@@ -216,6 +225,7 @@ class DateYYYYMMDD(Compound, Date):
             fields.append(Integer.named(u'day').using(format=u'%02i',
                                                       optional=optional))
 
+        cls._given_fields, cls._completed_fields = given, fields
         cls.field_schema = fields
 
     #if any(not field.name for field in fields):
-- 
2.43.0

