From 4e74e3a06e163e3490484280a0c16f6fb2c50b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 001/131] fix: keep line numbers in step with positions when
 blank lines are dropped

---
 ciscoconfparse/ciscoconfparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 998817f..26e60ae 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5827,6 +5827,8 @@ class ConfigList(MutableSequence):
                 if obj.text.strip() != "" or obj.blank_line_keep is True
             ]
             self._list = retval
+            # Dropped blank lines must not leave stale line numbers behind...
+            self.reassign_linenums()
 
         return retval
 
-- 
2.43.0


From 43a05c5ccd4eb2b8045e8b2c84ce6ccc2cdd1f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 002/131] fix: ignore dropped blank lines when looking at the
 line above a comment

---
 ciscoconfparse/ciscoconfparse.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 26e60ae..538dec0 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5872,7 +5872,15 @@ class ConfigList(MutableSequence):
                 ),
             )
 
-        if childobj.is_comment and (_list[idx - 1].indent > indent):
+        # Blank lines that are about to be dropped do not count as the line
+        # immediately above the comment; otherwise the same lines would get
+        # a different hierarchy the next time they are parsed
+        prev_idx = idx - 1
+        if self.ignore_blank_lines is True:
+            while prev_idx > 0 and _list[prev_idx].text.strip() == "":
+                prev_idx -= 1
+
+        if childobj.is_comment and (_list[prev_idx].indent > indent):
             ## I *really* hate making this exception, but legacy
             ##   ciscoconfparse never marked a comment as a child
             ##   when the line immediately above it was indented more
-- 
2.43.0


From c8a006fd87e5997cf7c37c5da5c9d4c05791a401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 003/131] fix: keep parent and children consistent for banner
 and macro lines

---
 ciscoconfparse/ciscoconfparse.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 538dec0..ffdf13e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5623,9 +5623,8 @@ class ConfigList(MutableSequence):
                                 ),
                             )
                         # blank_line_keep for Github Issue #229
-                        parent.children.append(obj)
+                        self._move_child_to_parent(parent, obj)
                         parent.child_indent = 0
-                        obj.parent = parent
                         break
                     else:
                         # all non-banner-parent lines should hit this condition
@@ -5635,14 +5634,29 @@ class ConfigList(MutableSequence):
                     # Commenting the following lines out; fix Github issue #115
                     # elif obj.is_comment and (obj.indent == 0):
                     #    break
-                    parent.children.append(obj)
+                    self._move_child_to_parent(parent, obj)
                     parent.child_indent = 0
-                    obj.parent = parent
                     obj.blank_line_keep = True
 
                 except IndexError:
                     break
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _move_child_to_parent(self, parentobj, childobj):
+        """
+        Make childobj a child of parentobj (a banner or macro), even if
+        childobj's indentation already made it a child of some other line.
+        """
+        old_parent = childobj.parent
+        if old_parent is not childobj:
+            old_parent.children = [
+                obj for obj in old_parent.children if obj is not childobj
+            ]
+        childobj.parent = parentobj
+        parentobj.children.append(childobj)
+        parentobj.children.sort(key=lambda obj: obj.linenum)
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def _macro_mark_children(self, macro_parent_idx_list):
@@ -5665,8 +5679,7 @@ class ConfigList(MutableSequence):
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-                cobj.parent = pobj
-                pobj.children.append(cobj)
+                self._move_child_to_parent(pobj, cobj)
                 # If we hit the end of the macro, break out of the loop
                 if cobj.text.rstrip() == "@":
                     finished = True
-- 
2.43.0


From 1e4e14b7f0556bff43218474c83b2343f867d1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 004/131] fix: a banner delimiter may be a letter of the banner
 keywords

---
 ciscoconfparse/ciscoconfparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index ffdf13e..0513247 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5588,7 +5588,8 @@ class ConfigList(MutableSequence):
             while bannerdelimit is not None:
                 ## Check whether the banner line has both begin and end delimter
                 if idx == parent.linenum:
-                    parts = parent.text.split(bannerdelimit)
+                    # Ignore delimiter characters in the banner keywords
+                    parts = parent.text[mm.start("bchar"):].split(bannerdelimit)
                     if len(parts) > 2:
                         ## banner has both begin and end delimiter on one line
                         if self.debug > 0:
-- 
2.43.0


From 807bbec2647e42601025325bf6c4ec9712ff7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:55 +0000
Subject: [PATCH 005/131] fix: do not crash on a macro without a closing @

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 0513247..d678725 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5677,6 +5677,9 @@ class ConfigList(MutableSequence):
             finished = False
             while not finished:
                 idx += 1
+                if idx >= len(self._list):
+                    # The macro is not terminated
+                    break
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-- 
2.43.0


From 9a9c2feae1d682ee07a845b9755f6ad209983683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:32 +0000
Subject: [PATCH 006/131] fix: do not mix up line number and text when
 comparing lines

---
 ciscoconfparse/ccp_abc.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index bab75bf..d7edb85 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -129,7 +129,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     def __hash__(self):
         ##   I inlined the hash() argument below for speed... whenever I change
         ##   self.__eq__() I *must* change this
-        return hash(str(self.linenum) + self.text)
+        return hash((self.linenum, self.text))
 
     # On BaseCfgLine()
     @logger.catch(reraise=True)
@@ -149,10 +149,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             ##   try / except is much faster than isinstance();
             ##   I added hash_arg() inline below for speed... whenever I change
             ##   self.__hash__() I *must* change this
-            # FIXME
-            return hash(str(self.linenum) + self.text) == hash(
-                str(val.linenum) + val.text
-            )
+            return self.linenum == val.linenum and self.text == val.text
         except Exception:
             return False
 
-- 
2.43.0


From d314b60ceb54ef9905c682434930c418dd9bd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:40 +0000
Subject: [PATCH 007/131] fix: use a line object given as childspec as the
 childspec

---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index d678725..7be8db8 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1917,7 +1917,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2316,7 +2316,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws is True:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2694,7 +2694,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
-- 
2.43.0


From 0d187ad8847c2030f5bfc8e401c2fa9b297afde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:47 +0000
Subject: [PATCH 008/131] fix: exactmatch applies to the whole of an
 alternation

---
 ciscoconfparse/ciscoconfparse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 7be8db8..b03dda8 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1496,7 +1496,7 @@ class CiscoConfParse(object):
         else:
             # Return the lines in self.ioscfg, which match (exactly) linespec
             return list(
-                filter(re.compile("^%s$" % linespec).search, self.ioscfg),
+                filter(re.compile("^(?:%s)$" % linespec).search, self.ioscfg),
             )
 
     # This method is on CiscoConfParse()
@@ -1544,7 +1544,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1624,7 +1624,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1737,7 +1737,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             objs = self._find_line_OBJ(linespec)
         else:
-            objs = self._find_line_OBJ("^%s$" % linespec)
+            objs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         for obj in objs:
             tmp.add(obj)
@@ -3937,7 +3937,7 @@ class CiscoConfParse(object):
             linespec_re = re.compile(linespec)
         elif exactmatch:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^%s$" % linespec)
+            linespec_re = re.compile("^(?:%s)$" % linespec)
 
         return list(
             filter(lambda obj: linespec_re.search(obj.text), self.ConfigObjs),
-- 
2.43.0


From 13d1763be42ae16cd7d0c16bbf782801d75ea64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:58 +0000
Subject: [PATCH 009/131] fix: find_object_branches() with a single branchspec
 element

---
 ciscoconfparse/ciscoconfparse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index b03dda8..a7f9f05 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1235,8 +1235,6 @@ class CiscoConfParse(object):
                 # Ensure we have the most recent branches...
                 branches = new_branches
 
-        branches = new_branches
-
         # If regex_groups is True, assign regexp matches to the return matrix.
         if regex_groups is True:
             return_matrix = []
-- 
2.43.0


From 2fa4d141e8c9207cd620471a3508f63b04c8ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:04 +0000
Subject: [PATCH 010/131] fix: find_object_branches() applies regex_flags to
 every branchspec element

---
 ciscoconfparse/ciscoconfparse.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index a7f9f05..7b1f343 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1164,10 +1164,7 @@ class CiscoConfParse(object):
 
             # Get the child objects from parent objects
             if parent_obj is None:
-                children = self._find_line_OBJ(
-                    linespec=childspec,
-                    exactmatch=False,
-                )
+                children = self.ConfigObjs
             else:
                 children = parent_obj.children
 
@@ -1255,7 +1252,9 @@ class CiscoConfParse(object):
                         return_row[idx] = (None,)
 
                     else:
-                        regex_result = re.search(branchspec[idx], element.text)
+                        regex_result = re.search(
+                            branchspec[idx], element.text, regex_flags
+                        )
                         if regex_result is not None:
                             # Save all the regex capture groups in matched_capture...
                             matched_capture = regex_result.groups()
-- 
2.43.0


From f2c21f7990d8b42e0a1781a22efe7deb26de4604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 011/131] fix: junos_unsupported returns the value of the
 wrapped method

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8fc9724..5482ce3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -464,7 +464,7 @@ def junos_unsupported(func):
                 syntax = args[0].confobj.syntax
         if syntax == "junos":
             logger.warning(warn, UnsupportedFeatureWarning)
-        func(*args, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From 789d0e5f5cbf44c27f6987b9b5563efdf2bf662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:36 +0000
Subject: [PATCH 012/131] fix: delete() removes exactly the line and its
 children

Deletion by stored line numbers removed unrelated lines, or raised
IndexError, when another line had been deleted before (such as a child
matched by the same delete_lines() call).
---
 ciscoconfparse/ccp_abc.py        | 63 ++++++++++++--------------------
 ciscoconfparse/ciscoconfparse.py | 15 ++++++++
 2 files changed, 38 insertions(+), 40 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index d7edb85..50158cb 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -667,53 +667,36 @@ class BaseCfgLine(metaclass=ABCMeta):
         if self.confobj.debug >= 1:
             logger.info("{}.delete(recurse={}) was called.".format(self, recurse))
 
-        # Build a set of all IOSCfgLine() object instances to be deleted...
-        delete_these = set(
-            {
-                self,
-            }
-        )
+        # Find this object in the configuration; line numbers alone could
+        #     point to something else after another modification.
+        linenum = self.confobj.find_object_index(self)
+        if linenum is None:
+            # This object was deleted before...
+            return False
+        if self.confobj._list[linenum] is not self:
+            # The configuration was re-parsed since we got this object...
+            return self.confobj._list[linenum].delete(recurse=recurse)
 
+        # Build a list of all IOSCfgLine() object instances to be deleted...
+        delete_these = [self]
         if recurse is True:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=True)".format(
-                        self.linenum
-                    )
-                )
-
             # NOTE - 1.5.30 changed this from iterating over self.children
             #        to self.all_children
-            for child in self.all_children:
-                delete_these.add(child)
-
-            # reverse is important here so we can delete a range of line numbers
-            # without clobbering the line numbers that haven't been deleted
-            # yet...
-            for obj in sorted(delete_these, reverse=True):
-                linenum = obj.linenum
-                if self.confobj.debug >= 1:
-                    logger.debug(
-                        "    Deleting <IOSCfgLine(line # {})>.".format(linenum)
-                    )
-                del self.confobj._list[linenum]
+            delete_these.extend(self.all_children)
 
-        else:
+        delete_ids = set(id(obj) for obj in delete_these)
+        self.confobj._list[:] = [
+            obj for obj in self.confobj._list if id(obj) not in delete_ids
+        ]
+        for obj in delete_these:
             if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=False)".format(
-                        self.linenum
-                    )
-                )
-            ## Consistency check to refuse deletion of the wrong object...
-            ##    only delete if the line numbers are consistent
-            text = self.text
-            linenum = self.linenum
-            assert self.confobj._list[linenum].text == text
+                logger.debug("    Deleted <IOSCfgLine(line # {})>.".format(obj.linenum))
+            # A deleted object has no line number
+            obj.linenum = -1
 
-            if self.confobj.debug >= 1:
-                logger.debug("    Deleting <IOSCfgLine(line # {})>.".format(linenum))
-            del self.confobj._list[linenum]
+        # Build a new list of children, because the caller could be iterating
+        #     over the old one...
+        self.parent.children = [obj for obj in self.parent.children if obj is not self]
 
         self.confobj.reassign_linenums()
         return True
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 7b1f343..f0b0320 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5934,6 +5934,21 @@ class ConfigList(MutableSequence):
         for idx, obj in enumerate(self._list):
             obj.linenum = idx
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def find_object_index(self, obj):
+        """Return the list index of a configuration line object.  If the configuration was re-parsed after ``obj`` was found, return the index of the line with the same line number and text.  Return None if there is no such line."""
+        for idx, candidate in enumerate(self._list):
+            if candidate is obj:
+                return idx
+
+        if obj.linenum >= 0:
+            for idx, candidate in enumerate(self._list):
+                if candidate == obj:
+                    return idx
+
+        return None
+
     # This method is on ConfigList()
     @ property
     @ logger.catch(reraise=True)
-- 
2.43.0


From 63151be3c16a460dc61da1bab45f784d3816ac91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 013/131] fix: insert_before() / insert_after() insert once per
 selected line

The line objects found by the caller were turned into regular
expressions again, so lines were inserted several times, or next to other
lines with similar text; all the new lines were one shared object.
---
 ciscoconfparse/ccp_abc.py        |  12 ++--
 ciscoconfparse/ciscoconfparse.py | 109 +++++++++++++++----------------
 2 files changed, 58 insertions(+), 63 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 50158cb..795b6ae 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -786,10 +786,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             calling_filename, calling_lineno, calling_function, insertstr
         )
         if isinstance(insertstr, str) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr, atomic=False)
 
         elif isinstance(insertstr, BaseCfgLine) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             raise ValueError(error)
@@ -805,7 +805,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         # Fail if insertstr is not the correct object type...
         #   only strings and *CfgLine() are allowed...
-        if not isinstance(insertstr, str) and not isinstance(insertstr, "BaseCfgLine"):
+        if not isinstance(insertstr, str) and not isinstance(insertstr, BaseCfgLine):
             error = "Cannot insert object type - %s" % type(insertstr)
             logger.error(error)
             raise NotImplementedError(error)
@@ -820,11 +820,11 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         if isinstance(insertstr, str) is True:
             # Handle insertion of a plain-text line
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr, atomic=False)
 
-        elif isinstance(insertstr, "BaseCfgLine"):
+        elif isinstance(insertstr, BaseCfgLine):
             # Handle insertion of a configuration line obj such as IOSCfgLine()
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             error = "FATAL CALL: in {} line {} {}(insertstr='{}')".format(
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index f0b0320..975eaac 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2880,11 +2880,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_before(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_before(exist_val, new_val)
+                self.ConfigObjs.insert_before(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -2998,11 +2998,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_after(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_after(exist_val, new_val)
+                self.ConfigObjs.insert_after(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3045,11 +3045,13 @@ class CiscoConfParse(object):
                         self.ConfigObjs.insert_after(
                             cobj,
                             insertstr,
-                            atomic=atomic,
+                            atomic=False,
                         ),
                     )
                 else:
                     pass
+        if atomic is True:
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
@@ -5306,7 +5308,7 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(error)
@@ -5323,35 +5325,12 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise ValueError(error)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(error)
-            raise ValueError(error)
-
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj.text)
-        ]
+        all_idx = self.find_insert_indexes(exist_val)
         for idx in sorted(all_idx, reverse=True):
             # insert at idx - 0 implements 'insert_before()'...
-            self._list.insert(idx, new_obj)
+            self._list.insert(idx, self.build_insert_object(new_val))
 
         if atomic:
             # Reparse the whole config as a text list
@@ -5428,7 +5407,7 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(err_txt)
@@ -5445,34 +5424,11 @@ class ConfigList(MutableSequence):
             logger.error(err_txt)
             raise ValueError(err_txt)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(err_txt)
-            raise ValueError(err_txt)
-
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj._text)
-        ]
+        all_idx = self.find_insert_indexes(exist_val)
         for idx in sorted(all_idx, reverse=True):
-            self._list.insert(idx + 1, new_obj)
+            self._list.insert(idx + 1, self.build_insert_object(new_val))
 
         if atomic is True:
             # Reparse the whole config as a text list
@@ -5949,6 +5905,45 @@ class ConfigList(MutableSequence):
 
         return None
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def find_insert_indexes(self, exist_val):
+        """Return a list with the index of each line referenced by ``exist_val``: the line itself if ``exist_val`` is a configuration line object, or all lines which match if it is a regular expression string."""
+        if isinstance(exist_val, BaseCfgLine):
+            idx = self.find_object_index(exist_val)
+            if idx is not None:
+                return [idx]
+            # Not an object of this configuration... use its text
+            return [
+                idx
+                for idx, obj in enumerate(self._list)
+                if obj.text == exist_val.text
+            ]
+
+        return [
+            idx for idx, obj in enumerate(self._list) if re.search(exist_val, obj.text)
+        ]
+
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def build_insert_object(self, new_val):
+        """Return a new configuration line object with the text in ``new_val``."""
+        if self.factory is True:
+            obj = config_line_factory(
+                all_lines=self._list,
+                line=new_val,
+                comment_delimiter=self.comment_delimiter,
+                syntax=self.syntax,
+            )
+        else:
+            obj = CFGLINE[self.syntax](
+                all_lines=self._list,
+                line=new_val,
+                comment_delimiter=self.comment_delimiter,
+            )
+        obj.confobj = self
+        return obj
+
     # This method is on ConfigList()
     @ property
     @ logger.catch(reraise=True)
-- 
2.43.0


From e0980778087944a8221887dbea2903505dbecca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:14 +0000
Subject: [PATCH 014/131] fix: append_line() appends the text of the line

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 975eaac..bc34cab 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3095,7 +3095,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         elif isinstance(linespec, (int, str, float)):
-            self.ConfigObjs.append(IOSCfgLine(str(linespec)))
+            self.ConfigObjs.append(IOSCfgLine(line=str(linespec)))
         elif isinstance(linespec, IOSCfgLine):
             self.ConfigObjs.append(linespec)
         else:
-- 
2.43.0


From 3ee3eba583862bb522e04f67f944b148d91aec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:22 +0000
Subject: [PATCH 015/131] fix: replace_all_children() visits descendants at any
 depth

---
 ciscoconfparse/ciscoconfparse.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index bc34cab..aacb375 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3956,14 +3956,7 @@ class CiscoConfParse(object):
         """SEMI-PRIVATE: Takes a single object and returns a list of
         decendants in all 'children' / 'grandchildren' / etc... after it.
         It should NOT return the children of siblings"""
-        # sort the list, and get unique objects
-        retval = set(lineobject.children)
-        for candidate in lineobject.children:
-            if candidate.has_children:
-                for child in candidate.children:
-                    retval.add(child)
-        retval = sorted(retval)
-        return retval
+        return lineobject.all_children
 
     # This method is on CiscoConfParse()
     @ logger.catch(reraise=True)
-- 
2.43.0


From e6330ef19f6c1e841304ca54babe3677a0e66e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:31 +0000
Subject: [PATCH 016/131] fix: ConfigList.insert() with factory=True

---
 ciscoconfparse/ciscoconfparse.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index aacb375..4aead5e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5440,23 +5440,7 @@ class ConfigList(MutableSequence):
 
         # Coerce a string into the appropriate object
         if getattr(val, "capitalize", False):
-            if self.factory:
-                obj = config_line_factory(
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                    syntax=self.syntax,
-                )
-
-            elif self.factory is False:
-                obj = CFGLINE[self.syntax](
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                )
-
-            else:
-                err_txt = 'insert() cannot insert "{}"'.format(val)
-                logger.error(err_txt)
-                raise ValueError(err_txt)
+            obj = self.build_insert_object(val)
         else:
             err_txt = 'insert() cannot insert "{}"'.format(val)
             logger.error(err_txt)
-- 
2.43.0


From 225f668d64d954a95e8fa935316538788f24fbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 017/131] fix: delete_children_matching() returns the deleted
 children

---
 ciscoconfparse/ccp_abc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 795b6ae..c76eb38 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -750,10 +750,9 @@ class BaseCfgLine(metaclass=ABCMeta):
            !
            >>>
         """
-        # if / else in a list comprehension... ref ---> https://stackoverflow.com/a/9442777/667301
-        retval = [
-            (obj.delete() if obj.re_search(linespec) else obj) for obj in self.children
-        ]
+        retval = [obj for obj in self.children if obj.re_search(linespec)]
+        for obj in retval:
+            obj.delete()
         return retval
 
     # On BaseCfgLine()
-- 
2.43.0


From 1c27c40dc69ed972006fc5ea1c3a7c4eae9e3be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:36 +0000
Subject: [PATCH 018/131] fix: replace_lines(atomic=True) and friends re-parse
 without factory

---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 4aead5e..036d477 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3216,7 +3216,7 @@ class CiscoConfParse(object):
                 continue
             retval.append(obj.re_sub(linespec, replacestr))
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
 
         return retval
@@ -3304,7 +3304,7 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
         return retval
 
@@ -3338,7 +3338,7 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
+        if atomic:
             self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
 
         return retval
-- 
2.43.0


From 9b97f0b9cb1002d58614dcd9fb26bd59d29a5a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:48 +0000
Subject: [PATCH 019/131] fix: replace_all_children() replaces once in a line
 with several matching parents

---
 ciscoconfparse/ciscoconfparse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 036d477..712bd85 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3325,15 +3325,20 @@ class CiscoConfParse(object):
         childspec_re = re.compile(childspec)
         if excludespec:
             excludespec_re = re.compile(excludespec)
+        # A line could have several matching parents; only replace once
+        replaced = set()
         for pobj in self._find_line_OBJ(parentspec, exactmatch=exactmatch):
             if excludespec and excludespec_re.search(pobj.text):
                 # Exclude replacements on pobj lines which match excludespec
                 continue
             for cobj in self._find_all_child_OBJ(pobj):
-                if excludespec and excludespec_re.search(cobj.text):
+                if id(cobj) in replaced:
+                    continue
+                elif excludespec and excludespec_re.search(cobj.text):
                     # Exclude replacements on pobj lines which match excludespec
                     continue
                 elif childspec_re.search(cobj.text):
+                    replaced.add(id(cobj))
                     retval.append(cobj.re_sub(childspec, replacestr))
                 else:
                     pass
-- 
2.43.0


From 586674a29b9ba650d21febc0193f31d308b03d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 020/131] fix: IPv4Obj and IPv6Obj subtraction accept the
 highest address as result

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5482ce3..c628915 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1321,7 +1321,7 @@ class IPv4Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV4_MAXINT:
+        if total > IPV4_MAXINT:
             raise RequirementFailure("Max IPv4 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv4 integer exceeded")
@@ -2038,7 +2038,7 @@ class IPv6Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV6_MAXINT:
+        if total > IPV6_MAXINT:
             raise RequirementFailure("Max IPv6 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv6 integer exceeded")
-- 
2.43.0


From 6002bcff6c064b7e949e00191f1d96b24e323d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:59 +0000
Subject: [PATCH 021/131] fix: network_offset refuses negative offsets, which
 leave the network

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index c628915..89d05de 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1580,7 +1580,7 @@ class IPv4Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_broadcast - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv4Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
@@ -2260,7 +2260,7 @@ class IPv6Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_network_maxint - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv6Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
-- 
2.43.0


From 060edf51625c9f957f4fd44c976396baba008860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:15 +0000
Subject: [PATCH 022/131] fix: IPv6Obj containment includes the last addresses
 of the network

---
 ciscoconfparse/ccp_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 89d05de..5f80878 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2059,7 +2059,8 @@ class IPv6Obj(object):
             else:
                 # NOTE: We cannot use the same algorithm as IPv4Obj.__contains__() b/c IPv6Obj has no broadcast
                 comparison_01 = (self.as_decimal_network <= val.as_decimal_network)
-                comparison_02 = (self.as_decimal_network + self.numhosts - 1) >= (val.as_decimal_network + val.numhosts - 1)
+                # and numhosts does not count all addresses of the network
+                comparison_02 = self.as_decimal_network_maxint >= val.as_decimal_network_maxint
                 return comparison_01 and comparison_02
 
         except BaseException as eee:
-- 
2.43.0


From eacebd7c5a39f6b491d42f6113169df75166a652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:15 +0000
Subject: [PATCH 023/131] fix: an IPv4Obj is never equal to an IPv6Obj with the
 same number

---
 ciscoconfparse/ccp_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5f80878..b310c3f 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1175,6 +1175,9 @@ class IPv4Obj(object):
     def __eq__(self, val):
         if isinstance(val, IPv4Obj) and (self.empty is True or val.empty is True):
             return self.empty == val.empty
+        elif isinstance(val, IPv6Obj):
+            # Equal objects must have equal hashes...
+            return False
         try:
             # Code to fix Github issue #180
             for obj in [self, val]:
@@ -1920,6 +1923,9 @@ class IPv6Obj(object):
                 return True
             else:
                 return False
+        if isinstance(val, IPv4Obj):
+            # Equal objects must have equal hashes...
+            return False
         try:
             for obj in [self, val]:
                 for attr_name in ["as_decimal", "prefixlen"]:
-- 
2.43.0


From bb20ff574e4b78c4ca6c379840b75e23d26dd087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:15 +0000
Subject: [PATCH 024/131] fix: empty address objects can be hashed and compared
 with anything

---
 ciscoconfparse/ccp_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index b310c3f..a51e3c0 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1175,6 +1175,8 @@ class IPv4Obj(object):
     def __eq__(self, val):
         if isinstance(val, IPv4Obj) and (self.empty is True or val.empty is True):
             return self.empty == val.empty
+        elif self.empty is True:
+            return False
         elif isinstance(val, IPv6Obj):
             # Equal objects must have equal hashes...
             return False
@@ -1919,10 +1921,7 @@ class IPv6Obj(object):
     # On IPv6Obj()
     def __eq__(self, val):
         if self.empty is True:
-            if val.empty is True:
-                return True
-            else:
-                return False
+            return isinstance(val, IPv6Obj) and val.empty is True
         if isinstance(val, IPv4Obj):
             # Equal objects must have equal hashes...
             return False
@@ -2075,7 +2074,10 @@ class IPv6Obj(object):
     # On IPv6Obj()
     def __hash__(self):
         # Python3 needs __hash__()
-        return hash(str(self.ip_object)) + hash(str(self.prefixlen))
+        if self.empty is False:
+            return hash(str(self.ip_object)) + hash(str(self.prefixlen))
+        else:
+            return hash(None)
 
     # On IPv6Obj()
     def __iter__(self):
-- 
2.43.0


From e93c8ad7a1d352da8c408121d04fed02c6738e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:46 +0000
Subject: [PATCH 025/131] fix: IPv6Obj refuses text that only contains an
 address, with AddressValueError

---
 ciscoconfparse/ccp_util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index a51e3c0..deb8873 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -107,7 +107,7 @@ _IPV6_REGEX_STR = r"""(?!:::\S+?$)             # Negative Lookahead for 3 colons
 |(?P<opt9>:(?::{0}){{1,7}})                    # ipv6 with leading double colons
 |(?P<opt10>(?:{0}:){{1,7}}:)                   # ipv6 with trailing double colons
 |(?P<opt11>(?:::))                             # ipv6 bare double colons (default route)
-)([/\s](?P<masklen>\d+))*                      # match 'masklen' and end 'addr' group
+)([/\s](?P<masklen>\d+))?                      # match 'masklen' and end 'addr' group
 """.format(_IPV6_RGX_CLS)
 
 _IPV6_REGEX_STR_COMPRESSED1 = r"""(?!:::\S+?$)(?P<addr1>(?P<opt1_1>{0}(?::{0}){{7}})|(?P<opt1_2>(?:{0}:){{1}}(?::{0}){{1,6}})|(?P<opt1_3>(?:{0}:){{2}}(?::{0}){{1,5}})|(?P<opt1_4>(?:{0}:){{3}}(?::{0}){{1,4}})|(?P<opt1_5>(?:{0}:){{4}}(?::{0}){{1,3}})|(?P<opt1_6>(?:{0}:){{5}}(?::{0}){{1,2}})|(?P<opt1_7>(?:{0}:){{6}}(?::{0}){{1,1}})|(?P<opt1_8>:(?::{0}){{1,7}})|(?P<opt1_9>(?:{0}:){{1,7}}:)|(?P<opt1_10>(?:::)))""".format(_IPV6_RGX_CLS)
@@ -1872,7 +1872,11 @@ class IPv6Obj(object):
             else:
                 raise NotImplementedError(v6addr_prefixlen.strip())
 
-            v6_str_rgx = _RGX_IPV6ADDR.search(v6addr_prefixlen.strip())
+            # The whole string must be an address; otherwise we would silently
+            #     return part of something that is not an IPv6 address...
+            v6_str_rgx = _RGX_IPV6ADDR.fullmatch(v6addr_prefixlen.strip())
+            if v6_str_rgx is None:
+                raise AddressValueError(f"Could not parse '{v6addr_prefixlen}' {type(v6addr_prefixlen)} into an IPv6 Address")
             # Example 'v6_groupdict'
             #     v6_groupdict = {'addr': '2b00:cd80:14:10::1', 'opt1': None, 'opt2': None, 'opt3': None, 'opt4': None, 'opt5': '2b00:cd80:14:10::1', 'opt6': None, 'opt7': None, 'opt8': None, 'opt9': None, 'opt10': None, 'masklen': '64'}
             v6_groupdict = v6_str_rgx.groupdict()
-- 
2.43.0


From edbc496880b4a6909cd5d3725a7324e4fc89fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:38 +0000
Subject: [PATCH 026/131] fix: IPv6Obj accepts the longest spellings of an IPv6
 address

---
 ciscoconfparse/ccp_util.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index deb8873..cc3f2a6 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -80,7 +80,7 @@ IPV4_MAXINT = 4294967295
 # Maximum ipv6 as an integer
 IPV6_MAXINT = 340282366920938463463374607431768211455
 IPV4_MAXSTR_LEN = 31  # String length with periods, slash, and netmask
-IPV6_MAXSTR_LEN = 39 + 4  # String length with colons, slash and masklen
+IPV6_MAXSTR_LEN = 45 + 4  # String length with colons, embedded ipv4, slash and masklen
 
 IPV4_MAX_PREFIXLEN = 32
 IPV6_MAX_PREFIXLEN = 128
@@ -1861,9 +1861,6 @@ class IPv6Obj(object):
         if v6addr_prefixlen is None:
             self.empty = True
         elif isinstance(v6addr_prefixlen, str):
-            if len(v6addr_prefixlen) > IPV6_MAXSTR_LEN:
-                raise RequirementFailure()
-
             tmp = re.split(r"\s+", v6addr_prefixlen.strip())
             if len(tmp) == 2:
                 v6addr_prefixlen = "/".join(tmp)
@@ -1872,6 +1869,9 @@ class IPv6Obj(object):
             else:
                 raise NotImplementedError(v6addr_prefixlen.strip())
 
+            if len(v6addr_prefixlen) > IPV6_MAXSTR_LEN:
+                raise RequirementFailure()
+
             # The whole string must be an address; otherwise we would silently
             #     return part of something that is not an IPv6 address...
             v6_str_rgx = _RGX_IPV6ADDR.fullmatch(v6addr_prefixlen.strip())
-- 
2.43.0


From 1a724c8c07cd45ae9e5b81b637b9ca492c60f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:29 +0000
Subject: [PATCH 027/131] fix: slot_card_port_subinterface_channel of names
 with only a subinterface or channel

---
 ciscoconfparse/ccp_util.py | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index cc3f2a6..5f7b25e 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3666,20 +3666,9 @@ class CiscoIOSInterface(object):
         else:
             _interface_class = f" {self.interface_class.strip()}"
 
-        if isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and isinstance(self.channel, (int, str)):
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}:{self.channel}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.port}{_interface_class}"
-        elif self.slot is None and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.port}{_interface_class}"
-        else:
-            error = "Could not construct a return value for CiscoIOSInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
-            logger.error(error)
-            raise ValueError(error)
+        _subinterface = "" if self.subinterface is None else f".{self.subinterface}"
+        _channel = "" if self.channel is None else f":{self.channel}"
+        return f"{self.number}{_subinterface}{_channel}{_interface_class}"
 
     # This method is on CiscoIOSInterface()
     @property
-- 
2.43.0


From b862de6597068de18341385e7dfad71542c0e508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 028/131] fix: order interfaces of which only one has a slot,
 subinterface, channel or class

---
 ciscoconfparse/ccp_util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5f7b25e..2aa1501 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3508,7 +3508,8 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
+        # None (i.e. no subinterface) cannot be compared with an integer; it sorts first
+        if [(ii is not None, ii) for ii in self.sort_list] > [(ii is not None, ii) for ii in other.sort_list]:
             return True
         return False
 
@@ -3516,7 +3517,8 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
+        # None (i.e. no subinterface) cannot be compared with an integer; it sorts first
+        if [(ii is not None, ii) for ii in self.sort_list] < [(ii is not None, ii) for ii in other.sort_list]:
             return True
         return False
 
-- 
2.43.0


From e19ead827156444f1c4ebcd7fd383128acfb499b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:06 +0000
Subject: [PATCH 029/131] fix: CiscoRange of integers is sorted, as documented
 for its members

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 2aa1501..60a5b8a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4859,7 +4859,7 @@ class CiscoRange(MutableSequence):
                 continue
 
         # De-duplicate the list of integers and return it...
-        return list(set([int(ii) for ii in integers]))
+        return sorted(set([int(ii) for ii in integers]))
 
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
-- 
2.43.0


From d6e0f675863c9ccda1477eee56d435c695b8084d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:15 +0000
Subject: [PATCH 030/131] fix: CiscoRange().as_list() does not modify the
 range, as_set() and empty ranges return their own type

---
 ciscoconfparse/ccp_util.py | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 60a5b8a..d9087fe 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5395,29 +5395,20 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def as_list(self, result_type="auto"):
         """Return a list of sorted components; an empty string is automatically rejected.  This method is tricky to test due to the requirement for the `.sort_list` attribute on all elements; avoid using the ordered nature of `as_list` and use `as_set`."""
-        # WAS DEEPCOPY
-        yy_list = copy.deepcopy(self._list)
-        for ii in self._list:
-            if isinstance(ii, str) and ii == "":
-                # Reject an empty string...
-                continue
-            if getattr(ii, "sort_list", None) is not None:
-                # Require the .sort_list attribute...
-                yy_list.append(ii)
-
-        self._list = yy_list
+        # Reject an empty string...
+        yy_list = [ii for ii in self._list if ii != ""]
         try:
             # Disable linter qa checks on this embedded list syntax...
-            retval = sorted(set(self._list), reverse=self.reverse) # noqa
+            retval = sorted(set(yy_list), reverse=self.reverse) # noqa
             if result_type == "auto":
                 if len(self._list) > 0:
                     result_type = self.member_type
                     return [result_type(ii) for ii in retval]
                 else:
-                    return set()
+                    return []
             elif result_type is None:
                 return [CiscoIOSInterface(ii) for ii in retval]
-            elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+            elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
                 return [result_type(ii) for ii in retval]
             elif result_type is str:
                 return [str(ii) for ii in retval]
@@ -5444,13 +5435,13 @@ class CiscoRange(MutableSequence):
         retval = set(self._list)
         if result_type == "auto":
             if len(self._list) > 0:
-                result_type = type(self.as_list[0])
+                result_type = self.member_type
                 return set([result_type(ii) for ii in retval])
             else:
-                return list()
+                return set()
         elif result_type is None:
             return set([CiscoIOSInterface(ii) for ii in retval])
-        elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+        elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
             return set([result_type(ii) for ii in retval])
         elif result_type is str:
             return set([str(ii) for ii in retval])
-- 
2.43.0


From 982616c432a096b5ee652eec15553e376bcd6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:22 +0000
Subject: [PATCH 031/131] fix: an empty CiscoRange can be hashed

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index d9087fe..e773f28 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5135,7 +5135,7 @@ class CiscoRange(MutableSequence):
     def __hash__(self):
         """Return a deterministic identifier for CiscoRange() implementations"""
         if len(self._list) == 0:
-            return hash(self._list)
+            return hash(str(self._list))
         else:
             return hash(str(self._list)) * hash(self.member_type)
 
-- 
2.43.0


From 6334ee98d22f3cae6c1544bfd126aa2d7a7b4d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:29 +0000
Subject: [PATCH 032/131] fix: CiscoRange()[ii] = val replaces the member

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index e773f28..79ae773 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5205,7 +5205,7 @@ class CiscoRange(MutableSequence):
             logger.critical(error)
             raise IndexError(error)
         else:
-            return self._list[ii]
+            self._list[ii] = val
 
     def __add__(self, other):
         if isinstance(other, CiscoRange):
-- 
2.43.0


From 1f95fc1f9080d7ed3a0ea97f26fb94b3908a37db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:36 +0000
Subject: [PATCH 033/131] fix: adding or subtracting CiscoRange() objects
 leaves the operands alone

---
 ciscoconfparse/ccp_util.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 79ae773..7c6b356 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5209,9 +5209,9 @@ class CiscoRange(MutableSequence):
 
     def __add__(self, other):
         if isinstance(other, CiscoRange):
-            self._list.extend(other._list)
-            self._list = sorted(set(self._list))
-            return self
+            retval = copy.copy(self)
+            retval._list = sorted(set(self._list + other._list))
+            return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
             logger.error(error)
@@ -5219,13 +5219,10 @@ class CiscoRange(MutableSequence):
 
     def __sub__(self, other):
         if isinstance(other, CiscoRange):
-            for ii in other._list:
-                try:
-                    self._list.remove(ii)
-                except ValueError:
-                    # Skip the item if it does not exist...
-                    pass
-            return self
+            retval = copy.copy(self)
+            remove_these = set(other._list)
+            retval._list = [ii for ii in self._list if ii not in remove_these]
+            return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
             logger.error(error)
-- 
2.43.0


From 254582e031916df06492e09e5891ec2995e4676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:06 +0000
Subject: [PATCH 034/131] fix: CiscoRange().append() skips existing members
 when errors are ignored, and sorts any interfaces

---
 ciscoconfparse/ccp_util.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 7c6b356..adba9a1 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5245,7 +5245,11 @@ class CiscoRange(MutableSequence):
                 if isinstance(target_list, list):
                     if isinstance(target_list[0], (CiscoIOSInterface, CiscoIOSXRInterface)):
                         # Sort CiscoIOSInterface() or CiscoIOSXRInterface members
-                        new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
+                        if attribute == "sort_list":
+                            # The members know how to compare None with an integer...
+                            new_list = sorted(target_list, reverse=reverse)
+                        else:
+                            new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
                     elif isinstance(target_list[0], (int, float)):
                         # Sort int or float members
                         new_list = sorted(target_list, reverse=reverse)
@@ -5285,7 +5289,10 @@ class CiscoRange(MutableSequence):
             logger.error(error)
             raise MismatchedType(error)
 
-        if val in self._list and ignore_errors is False:
+        if val in self._list and ignore_errors is True:
+            logger.debug(f"CiscoRange().append({val}) was skipped because {val} already exists in this CiscoRange()")
+            return self
+        elif val in self._list:
             error = f'Requested to append {val} {type(val)}; however, CiscoRange() already contains {val}'
             logger.error(error)
             raise DuplicateMember(error)
-- 
2.43.0


From e75d5b1ab09f39419840de0e57a855792899adcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:13 +0000
Subject: [PATCH 035/131] fix: CiscoRange().remove() of interfaces, and of
 absent members

---
 ciscoconfparse/ccp_util.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index adba9a1..3077d8b 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5343,10 +5343,22 @@ class CiscoRange(MutableSequence):
             else:
                 result_type = self.result_type
 
+        elif len(self._list) == 0:
+            new_list = self._list
+
+        elif isinstance(self._list[0], (CiscoIOSInterface, CiscoIOSXRInterface)):
+            # These are CiscoIOSInterface() or CiscoIOSXRInterface()
+            result_type = type(self._list[0])
+            new_list = [ii for ii in list_before if ii != arg]
+            if len(new_list) < length_before:
+                self._list = new_list
+                return self
+
         elif len(self._list) > 0:
 
             # Try removing some common result types...
-            for result_type in [None, int, str, float, 0]:
+            new_list = list_before
+            for result_type in [int, str, float, 0]:
                 if len(self._list) > 0 and result_type is not type(self._list[0]):
                     # Skip this result_type...
                     continue
@@ -5355,12 +5367,6 @@ class CiscoRange(MutableSequence):
                     error = f"CiscoRange().remove({arg}) arg type: {type(arg)} does not match type: {self.member_type} of this CiscoRange(): {self}"
                     logger.error(error)
                     raise MismatchedType(error)
-                elif result_type is None:
-                    # These are CiscoIOSInterface() or CiscoIOSXRInterface()
-                    new_list = [CiscoIOSInterface(ii) for ii in list_before if ii != arg]
-                elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
-                    # These are CiscoIOSInterface() or CiscoIOSXRInterface()
-                    new_list = [result_type(ii) for ii in list_before if ii != arg]
                 else:
                     try:
                         new_list = [result_type(ii) for ii in list_before if result_type(ii) != result_type(arg)]
-- 
2.43.0


From afe8fc58b9fc69ce2a36a3ec81050e3da40b6e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:48 +0000
Subject: [PATCH 036/131] fix: CiscoRange().as_compressed_str() of interfaces

---
 ciscoconfparse/ccp_util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 3077d8b..776b532 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5483,11 +5483,11 @@ class CiscoRange(MutableSequence):
             retval = list()
 
         # Handle CiscoIOSInterface() instances...
-        if isinstance(self.member_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+        suffix_str = ""
+        if issubclass(self.member_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
             # Build a magic attribute dict so we can intelligently prepend slot/card/port/etc...
             magic_string = "3141592653591892234109876543212345678"
-            this_obj = self.member_type(self.text.split(",")[0])
-            magic_dict = this_obj.as_dict()
+            magic_dict = self._list[0].as_dict()
             for attr_name in ("channel", "subinterface", "port", "card", "slot",):
                 if magic_dict[attr_name] is not None:
                     if attr_name == self.iterate_attribute:
@@ -5498,12 +5498,13 @@ class CiscoRange(MutableSequence):
             obj = self.member_type(interface_dict=magic_dict, debug=debug)
             if debug is True:
                 logger.success(f"    CiscoRange() call to {self.member_type}().as_compressed_str() with `interface_dict` parameter succeeded")
-            prefix_str = str(obj).replace(magic_string, "")
+            # Anything after the iterated number, such as ' multipoint' goes last
+            prefix_str, suffix_str = str(obj).split(magic_string)
 
             # Build a list of the relevant string iteration pieces...
             input_str = []
             for _, component in enumerate(self.as_list()):
-                input_str.append(getattr(self.member_type(component), self.iterate_attribute))
+                input_str.append(int(getattr(self.member_type(component), self.iterate_attribute)))
         # Handle str() instances...
         elif self.member_type is str:
             prefix_str = ""
@@ -5554,7 +5555,7 @@ class CiscoRange(MutableSequence):
             else:
                 retval += "," + str(range_list[ii])
 
-        return retval
+        return retval + suffix_str
 
 
 ##############################################################################
-- 
2.43.0


From d43c0f95f85298a79ddade7bc3c7b598970e63d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:16 +0000
Subject: [PATCH 037/131] fix: CiscoRange of subinterfaces, of several slots or
 prefixes, and of names with dashes

---
 ciscoconfparse/ccp_util.py | 65 +++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 776b532..df767b6 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4874,6 +4874,19 @@ class CiscoRange(MutableSequence):
         self.result_type = float
         raise NotImplementedError("parse_floats() is not yet supported")
 
+    # This method is on CiscoRange()
+    @logger.catch(reraise=True)
+    def split_range(self, csv_part):
+        """Return a tuple with the name of the first interface in `csv_part`, and the last number of its range.  The last number is None if `csv_part` is a single interface."""
+        # Do not stumble over the other dashes in 'Port-channel1-3', or in 'ATM1/0.1-3 point-to-point'
+        range_rgx = re.search(r"^\s*(?P<begin>\S.*?|)(?:(?<=\d)\s*\-\s*(?P<end>\d+)(?:\s+[a-zA-Z][a-zA-Z\-]*)?)?\s*$", csv_part)
+        if range_rgx is None or re.search(r"\d\s*\-", range_rgx.group("begin")):
+            error = f"Could not divide {csv_part} into interface components"
+            logger.error(error)
+            raise InvalidCiscoRange(error)
+        begin, end = range_rgx.group("begin"), range_rgx.group("end")
+        return begin, None if end is None else int(end)
+
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
     def parse_cisco_interfaces(self, text, result_type, debug=False):
@@ -4896,9 +4909,10 @@ class CiscoRange(MutableSequence):
             ##################################################################
             # Build base instances of begin_obj and this_obj
             ##################################################################
+            begin_str, end_ordinal = self.split_range(_csv_part)
             if idx == 0:
                 # Set the begin_obj...
-                begin_obj = _result_type(_csv_part.split("-")[0])
+                begin_obj = _result_type(begin_str)
                 self.begin_obj = begin_obj
                 self.this_obj = _result_type(interface_dict=begin_obj.as_dict(), debug=debug)
                 intf_dict = begin_obj.as_dict()
@@ -4919,6 +4933,16 @@ class CiscoRange(MutableSequence):
                     begin_obj = _result_type(interface_dict=intf_dict)
                     self.begin_obj = begin_obj
 
+            elif re.search(r"^\d+(\s+[a-zA-Z][a-zA-Z\-]*)?$", begin_str) is None:
+                ##############################################################
+                # This is a whole name, such as 'Eth2/1' in 'Eth1/1-3,Eth2/1'
+                ##############################################################
+                intf_dict = _result_type(begin_str, debug=debug).as_dict()
+                for attr_name in ("prefix", "interface_class"):
+                    intf_dict[attr_name] = intf_dict[attr_name] or getattr(begin_obj, attr_name)
+                begin_obj = _result_type(interface_dict=intf_dict)
+                begin_str = None
+
             ##################################################################
             # this_obj will also be modified in the large per
             #     attribute if-clauses, below
@@ -4940,19 +4964,9 @@ class CiscoRange(MutableSequence):
                     logger.warning(f"CiscoRange() set `iterate_attribute` to the default of {self.default_iter_attr}")
                 self.iterate_attribute = self.default_iter_attr
 
-            if idx > 0:
-                if self.iterate_attribute == 'channel' and isinstance(begin_obj.channel, int):
-                    self.this_obj.channel = _result_type(_csv_part.split("-")[0].strip(), debug=debug).channel
-                elif self.iterate_attribute == 'subinterface' and isinstance(begin_obj.subinterface, int):
-                    self.this_obj.subinterface = _result_type(_csv_part.split("-")[0].strip(), debug=debug).subinterface
-                elif self.iterate_attribute == 'port' and isinstance(begin_obj.port, int):
-                    self.this_obj.port = _result_type(_csv_part.split("-")[0].strip(), debug=debug).port
-                elif self.iterate_attribute == 'card' and isinstance(begin_obj.card, int):
-                    self.this_obj.card = _result_type(_csv_part.split("-")[0].strip(), debug=debug).card
-                elif self.iterate_attribute == 'slot' and isinstance(begin_obj.card, int):
-                    self.this_obj.slot = _result_type(_csv_part.split("-")[0].strip(), debug=debug).slot
-                else:
-                    raise NotImplementedError()
+            if idx > 0 and begin_str is not None:
+                # This is a bare number, such as '7' in 'Eth1/1-3,7'
+                setattr(self.this_obj, self.iterate_attribute, int(begin_str.split()[0]))
 
             ##################################################################
             #
@@ -4970,24 +4984,11 @@ class CiscoRange(MutableSequence):
             # Set the end_ordinal... keep this separate from begin_obj logic...
             if self.iterate_attribute is None:
                 raise ValueError()
-            if "-" in _csv_part:
-                if len(_csv_part.split("-")) == 2:
-                    # Append a whole range of interfaces...
-                    obj = _result_type(_csv_part.split("-")[0].strip(), debug=debug)
-                    begin_ordinal = getattr(obj, self.iterate_attribute)
-                    # parse end_ordinal from 'Eth1/2-4 multipoint'
-                    #     ref: https://stackoverflow.com/a/1450900
-                    end_ordinal = int("".join(filter(str.isdigit, _csv_part.split("-")[1].strip())))
-                    if debug is True:
-                        logger.info(f"CiscoRange(text={text}, debug=True) : end_ordinal={end_ordinal}")
-                else:
-                    error = f"Could not divide {_csv_part} into interface components"
-                    logger.error(error)
-                    raise InvalidCiscoRange(error)
-            else:
-                end_ordinal = None
-                if debug is True:
-                    logger.info(f"CiscoRange(text={text}, debug=True) : end_ordinal={end_ordinal}")
+            if debug is True:
+                logger.info(f"CiscoRange(text={text}, debug=True) : end_ordinal={end_ordinal}")
+            if end_ordinal is not None:
+                # Append a whole range of interfaces...
+                begin_ordinal = getattr(self.this_obj, self.iterate_attribute)
 
             if debug is True:
                 logger.debug(f"    CiscoRange(text={text}, debug=True) [begin_obj: {type(self.begin_obj)}]    end_ordinal: {end_ordinal}")
-- 
2.43.0


From 7cdad281f17e17c782bab28ab00c0014a0481c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:38 +0000
Subject: [PATCH 038/131] fix: as_compressed_str() of interfaces of several
 slots or prefixes

---
 ciscoconfparse/ccp_util.py | 44 ++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index df767b6..b10445a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5480,49 +5480,37 @@ class CiscoRange(MutableSequence):
         """
         if len(self._list) == 0:
             return ""
-        else:
-            retval = list()
 
         # Handle CiscoIOSInterface() instances...
-        suffix_str = ""
         if issubclass(self.member_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
             # Build a magic attribute dict so we can intelligently prepend slot/card/port/etc...
             magic_string = "3141592653591892234109876543212345678"
-            magic_dict = self._list[0].as_dict()
-            for attr_name in ("channel", "subinterface", "port", "card", "slot",):
-                if magic_dict[attr_name] is not None:
-                    if attr_name == self.iterate_attribute:
+            # A dict of names with the magic string instead of the most-specific number
+            components = dict()
+            for component in self.as_list():
+                magic_dict = component.as_dict()
+                for attr_name in ("channel", "subinterface", "port"):
+                    if magic_dict[attr_name] is not None:
+                        number = int(magic_dict[attr_name])
                         magic_dict[attr_name] = int(magic_string)
                         break
-            if debug is True:
-                logger.info(f"CiscoRange() calling {self.member_type}(interface_dict={magic_dict}).as_compressed_str()")
-            obj = self.member_type(interface_dict=magic_dict, debug=debug)
-            if debug is True:
-                logger.success(f"    CiscoRange() call to {self.member_type}().as_compressed_str() with `interface_dict` parameter succeeded")
-            # Anything after the iterated number, such as ' multipoint' goes last
-            prefix_str, suffix_str = str(obj).split(magic_string)
-
-            # Build a list of the relevant string iteration pieces...
-            input_str = []
-            for _, component in enumerate(self.as_list()):
-                input_str.append(int(getattr(self.member_type(component), self.iterate_attribute)))
+                name = str(self.member_type(interface_dict=magic_dict, debug=debug))
+                components.setdefault(name, []).append(number)
+            return ",".join(name.replace(magic_string, self.compress_numbers(numbers)) for name, numbers in components.items())
         # Handle str() instances...
         elif self.member_type is str:
-            prefix_str = ""
             # Build a list of the relevant string iteration pieces...
             input_str = []
             for _, component in enumerate(self.as_list()):
-                input_str.append(str(component))
+                input_str.append(int(component))
         # Handle int() instances...
         elif self.member_type is int:
-            prefix_str = ""
             # Build a list of the relevant string iteration pieces...
             input_str = []
             for _, component in enumerate(self.as_list()):
                 input_str.append(int(component))
         # Handle float() instances...
         elif self.member_type is float:
-            prefix_str = ""
             # Build a list of the relevant string iteration pieces...
             input_str = []
             for _, component in enumerate(self.as_list()):
@@ -5530,6 +5518,12 @@ class CiscoRange(MutableSequence):
         else:
             raise UnexpectedType(self.member_type)
 
+        return self.compress_numbers(input_str)
+
+    # This method is on CiscoRange()
+    @logger.catch(reraise=True)
+    def compress_numbers(self, input_str):
+        """Return a text string with a compressed csv of the numbers in `input_str`"""
         if len(input_str) == 0:  # Special case, handle empty list
             return ""
 
@@ -5549,14 +5543,14 @@ class CiscoRange(MutableSequence):
             range_list += [input_str[len(input_str) - 1]]
 
         # Build the return value from range_list...
-        retval = prefix_str + str(range_list[0])
+        retval = str(range_list[0])
         for ii in range(1, len(range_list)):
             if str(type(range_list[ii])) != str(type(range_list[ii - 1])):
                 retval += str(range_list[ii])
             else:
                 retval += "," + str(range_list[ii])
 
-        return retval + suffix_str
+        return retval
 
 
 ##############################################################################
-- 
2.43.0


From 079862dc49c0cac49eb9b5d38d2d2f343de8a3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:09 +0000
Subject: [PATCH 039/131] fix: re_match_iter_typed(groupdict, recurse=False)
 searches all children

---
 ciscoconfparse/ccp_abc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index c76eb38..cfa7926 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1368,12 +1368,13 @@ class BaseCfgLine(metaclass=ABCMeta):
             if recurse is False:
                 for cobj in self.children:
                     mm = re.search(regex, cobj.text)
-                    return self.get_typed_dict(
-                        regex=mm,
-                        type_dict=groupdict,
-                        default=default,
-                        debug=debug,
-                    )
+                    if isinstance(mm, re.Match):
+                        return self.get_typed_dict(
+                            regex=mm,
+                            type_dict=groupdict,
+                            default=default,
+                            debug=debug,
+                        )
                 return self.get_typed_dict(
                     regex=mm,
                     type_dict=groupdict,
-- 
2.43.0


From 76e5d62f0ae96add5a21ada4ae1a862e1fb71139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:15 +0000
Subject: [PATCH 040/131] fix: get_typed_dict() gives the default for groups
 without a match, and casts all others

---
 ciscoconfparse/ccp_abc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index cfa7926..7bd8e0f 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -996,8 +996,11 @@ class BaseCfgLine(metaclass=ABCMeta):
             # in `type_dict`...
             _groupdict = regex.groupdict()
             for _regex_key, _type in type_dict.items():
-                retval[_regex_key] = _groupdict.get(_regex_key, default)
-                if _type is not None and retval[_regex_key] != default:
+                retval[_regex_key] = _groupdict.get(_regex_key, None)
+                if retval[_regex_key] is None:
+                    # This key did not match
+                    retval[_regex_key] = default
+                elif _type is not None:
                     retval[_regex_key] = _type(retval[_regex_key])
         elif regex is None and isinstance(type_dict, dict):
             # If the regex did not match, None is returned... and we should
-- 
2.43.0


From 3d598e30368f55a5a4e182e195a22cee80ed6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:22 +0000
Subject: [PATCH 041/131] fix: re_match_iter_typed() ignores groups without a
 match, as re_match_typed() does

---
 ciscoconfparse/ccp_abc.py        | 6 +++---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 7bd8e0f..33bf1dd 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1327,7 +1327,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
             # Return the result if the parent line matches the regex...
             mm = re.search(regex, self.text)
-            if isinstance(mm, re.Match):
+            if isinstance(mm, re.Match) and mm.group(group) is not None:
                 return result_type(mm.group(group))
 
             if recurse is False:
@@ -1335,7 +1335,7 @@ class BaseCfgLine(metaclass=ABCMeta):
                     if debug is True:
                         logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj}<--")
                     mm = re.search(regex, cobj.text)
-                    if isinstance(mm, re.Match):
+                    if isinstance(mm, re.Match) and mm.group(group) is not None:
                         return result_type(mm.group(group))
                 ## Ref Github issue #121
                 if untyped_default is True:
@@ -1347,7 +1347,7 @@ class BaseCfgLine(metaclass=ABCMeta):
                     if debug is True:
                         logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj}<--")
                     mm = re.search(regex, cobj.text)
-                    if isinstance(mm, re.Match):
+                    if isinstance(mm, re.Match) and mm.group(group) is not None:
                         return result_type(mm.group(group))
                 ## Ref Github issue #121
                 if untyped_default is True:
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 712bd85..c88977e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3473,7 +3473,7 @@ class CiscoConfParse(object):
                 continue
 
             mm = re.search(regexspec, cobj.text)
-            if mm is not None:
+            if mm is not None and mm.group(group) is not None:
                 return result_type(mm.group(group))
         ## Ref Github issue #121
         if untyped_default:
-- 
2.43.0


From c3c975919bec17a11b44731b89b55fba6d43b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:29 +0000
Subject: [PATCH 042/131] fix: re_search() with text which is no match of the
 regex

---
 ciscoconfparse/ccp_abc.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 33bf1dd..74d67fe 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1140,12 +1140,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         # assert isinstance(debug, int)
 
         retval = default
-        # Shortcut with a substring match, if possible...
-        if isinstance(regex, str) and (regex in self.text):
-            if debug > 0:
-                logger.debug("'{}' is a substring of '{}'".format(regex, self.text))
-            retval = self.text
-        elif re.search(regex, self.text) is not None:
+        if re.search(regex, self.text) is not None:
             ## TODO: use re.escape(regex) on all regex, instead of bare regex
             if debug > 0:
                 logger.debug("re.search('{}', '{}') matches".format(regex, self.text))
-- 
2.43.0


From 0be2e78c8c67828df5a03bcce782e52e6ac8c2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:37 +0000
Subject: [PATCH 043/131] fix: L4Object() of 'neq' specifications

---
 ciscoconfparse/ccp_util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index b10445a..a85a071 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2480,7 +2480,7 @@ class L4Object(object):
         else:
             raise NotImplementedError(f"This syntax is unknown: '{syntax}'")
 
-        if "eq " in port_spec.strip():
+        if re.search(r"^eq ", port_spec.strip()):
             port_tmp = re.split(r"\s+", port_spec)[-1].strip()
             eq_port = int(ports.get(port_tmp, port_tmp))
             if not (1 <= eq_port <= 65535):
@@ -2513,8 +2513,11 @@ class L4Object(object):
             self.port_list = sorted(range(low_port + 1, 65536))
         elif "neq " in port_spec.strip():
             port_str = re.split(r"\s+", port_spec)[-1]
+            neq_port = int(ports.get(port_str, port_str))
+            if not (1 <= neq_port <= 65535):
+                raise RequirementFailure()
             tmp = set(range(1, 65536))
-            tmp.remove(int(port_str))
+            tmp.remove(neq_port)
             self.port_list = sorted(tmp)
         else:
             raise NotImplementedError(f"This port_spec is unknown: '{port_spec}'")
-- 
2.43.0


From 17a4c47c7181a870b84d51a7a541502f6776e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:45 +0000
Subject: [PATCH 044/131] fix: L4Object() refuses ranges outside of the port
 numbers

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index a85a071..e4a7f2a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2496,7 +2496,7 @@ class L4Object(object):
             port_tmp = re.split(r"\s+", port_spec)[1:]
             low_port = int(ports.get(port_tmp[0], port_tmp[0]))
             high_port = int(ports.get(port_tmp[1], port_tmp[1]))
-            if low_port > high_port:
+            if not (1 <= low_port <= high_port <= 65535):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port, high_port + 1))
         elif "lt " in port_spec.strip():
-- 
2.43.0


From 1ced8c97944f336d47457b28c4995f42a15b9f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:12 +0000
Subject: [PATCH 045/131] fix: repr() of L4Object()

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index e4a7f2a..ca231e2 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2528,9 +2528,9 @@ class L4Object(object):
         return False
 
     def __repr__(self):
-        crobj = CiscoRange()
+        crobj = CiscoRange(result_type=int)
         crobj._list = self.port_list
-        return f"<L4Object {self.protocol} ports: {crobj.compressed_str}>"
+        return f"<L4Object {self.protocol} ports: {crobj.as_compressed_str()}>"
 
 
 class DNSResponse(object):
-- 
2.43.0


From 0c88a7994bba930c1dff069e28da701a07f63c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:18 +0000
Subject: [PATCH 046/131] fix: L4Object() can be compared with anything

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index ca231e2..0b049d5 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2523,7 +2523,7 @@ class L4Object(object):
             raise NotImplementedError(f"This port_spec is unknown: '{port_spec}'")
 
     def __eq__(self, val):
-        if (self.protocol == val.protocol) and (self.port_list == val.port_list):
+        if isinstance(val, L4Object) and (self.protocol == val.protocol) and (self.port_list == val.port_list):
             return True
         return False
 
-- 
2.43.0


From 89cdd01405285956bf9702a8c16ee4716f1af34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:25 +0000
Subject: [PATCH 047/131] fix: the ports of ftp and ftp-data were swapped

---
 ciscoconfparse/protocol_values.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/protocol_values.py b/ciscoconfparse/protocol_values.py
index 730134c..b5fb662 100644
--- a/ciscoconfparse/protocol_values.py
+++ b/ciscoconfparse/protocol_values.py
@@ -64,8 +64,8 @@ ASA_TCP_PORTS = {
     "echo": 7,
     "exec": 512,
     "finger": 79,
-    "ftp": 20,
-    "ftp-data": 21,
+    "ftp": 21,
+    "ftp-data": 20,
     "gopher": 70,
     "h323": 1720,
     "hostname": 101,
-- 
2.43.0


From 56852a4660111df0b89a0123b5d710f805e14eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:09 +0000
Subject: [PATCH 048/131] fix: an unmatched closing brace is an ordinary line

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index c88977e..c0a565f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -540,10 +540,10 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
                     opening_brace_objs.append(obj)
 
                 elif len(obj.text.strip()) >= 1 and obj.text.strip()[0] == "}":
+                    # An unmatched closing brace (i.e. in a banner) keeps
+                    # the parent given by its indentation...
                     if len(opening_brace_objs) >= 1:
                         obj.parent = opening_brace_objs.pop()
-                    else:
-                        raise ValueError
 
     return input_list
 
-- 
2.43.0


From 0181ee4b06025a4b4125f052f1dc7297c33090da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:18 +0000
Subject: [PATCH 049/131] fix: closing braces are children of the line which
 opened the block

---
 ciscoconfparse/ciscoconfparse.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index c0a565f..869a998 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -543,7 +543,15 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
                     # An unmatched closing brace (i.e. in a banner) keeps
                     # the parent given by its indentation...
                     if len(opening_brace_objs) >= 1:
-                        obj.parent = opening_brace_objs.pop()
+                        new_parent = opening_brace_objs.pop()
+                        if obj.parent is not new_parent:
+                            if obj.parent is not obj:
+                                obj.parent.children = [
+                                    ii for ii in obj.parent.children if ii is not obj
+                                ]
+                            obj.parent = new_parent
+                            new_parent.children.append(obj)
+                            new_parent.children.sort(key=lambda ii: ii.linenum)
 
     return input_list
 
-- 
2.43.0


From 6ba3dff688111401b265d7b46f7bffdff25e05ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:24 +0000
Subject: [PATCH 050/131] fix: a line such as '} else {' closes a block before
 it opens another one

---
 ciscoconfparse/ciscoconfparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 869a998..f7ca705 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -536,10 +536,7 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
                 # a multi-line string...
                 #
                 # This check will explicitly catch some problems like that...
-                if len(obj.text.rstrip()) >= 1 and obj.text.rstrip()[-1] == "{":
-                    opening_brace_objs.append(obj)
-
-                elif len(obj.text.strip()) >= 1 and obj.text.strip()[0] == "}":
+                if len(obj.text.strip()) >= 1 and obj.text.strip()[0] == "}":
                     # An unmatched closing brace (i.e. in a banner) keeps
                     # the parent given by its indentation...
                     if len(opening_brace_objs) >= 1:
@@ -553,6 +550,9 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
                             new_parent.children.append(obj)
                             new_parent.children.sort(key=lambda ii: ii.linenum)
 
+                if len(obj.text.rstrip()) >= 1 and obj.text.rstrip()[-1] == "{":
+                    opening_brace_objs.append(obj)
+
     return input_list
 
 
-- 
2.43.0


From f6da03654f08ea70d7762f5f9a610f13dd777b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:32 +0000
Subject: [PATCH 051/131] fix: comments neither open nor close brace-delimited
 blocks

---
 ciscoconfparse/ciscoconfparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index f7ca705..43716ba 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -530,6 +530,10 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
         opening_brace_objs = []
         for obj in input_list:
             if isinstance(obj, BaseCfgLine) and isinstance(obj.text, str):
+                # A brace in a comment does not belong to any block...
+                if obj.is_comment:
+                    continue
+
                 # These rstrip() are one of two fixes, intended to catch user error such as
                 # the problems that the submitter of Github issue #251 had.
                 # CiscoConfParse() could not read his configuration because he submitted
-- 
2.43.0


From 636718dd1fdaea28f2a17ae9172b3fdb4feed47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:41 +0000
Subject: [PATCH 052/131] fix: a comment which contains the delimiter is a
 comment, whatever it ends with

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 43716ba..4d8f3dc 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -310,7 +310,7 @@ def parse_line_braces(line_txt=None, comment_delimiter=None) -> tuple:
     """
     brace_re = re.compile(junos_re_str, re.VERBOSE)
     comment_re = re.compile(
-        r"^\s*(?P<delimiter>[{0}]+)(?P<comment>[^{0}]*)$".format(
+        r"^\s*(?P<delimiter>[{0}]+)(?P<comment>.*)$".format(
             re.escape(comment_delimiter)
         )
     )
-- 
2.43.0


From d842940d1d95f7b31f97a10a3cfd287cb4756063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:49 +0000
Subject: [PATCH 053/131] fix: each of several closing braces on one line
 closes a block

---
 ciscoconfparse/ciscoconfparse.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 4d8f3dc..3d9cbd4 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -303,7 +303,7 @@ def parse_line_braces(line_txt=None, comment_delimiter=None) -> tuple:
 
     junos_re_str = r"""^
     (?:\s*
-        (?P<braces_close_left>\})*(?P<line1>.*?)(?P<braces_open_right>\{)*;*
+        (?P<braces_close_left>\}*(?:\s*\})*)(?P<line1>.*?)(?P<braces_open_right>\{)*;*
         |(?P<line2>[^\{\}]*?)(?P<braces_open_left>\{)(?P<condition2>.*?)(?P<braces_close_right>\});*\s*
         |(?P<line3>[^\{\}]*?);*\s*
     )\s*$
@@ -333,6 +333,7 @@ def parse_line_braces(line_txt=None, comment_delimiter=None) -> tuple:
 
         # } line1 { foo bar this } {
         braces_close_left = bool(results.get("braces_close_left", ""))
+        num_close_left = (results.get("braces_close_left", "") or "").count("}")
         braces_open_right = bool(results.get("braces_open_right", ""))
 
         # line2
@@ -346,8 +347,8 @@ def parse_line_braces(line_txt=None, comment_delimiter=None) -> tuple:
         if braces_close_left and braces_open_right:
             # Based off line1
             #     } elseif { bar baz } {
-            this_line_indent -= 1
-            child_indent += 0
+            this_line_indent -= num_close_left
+            child_indent -= num_close_left - 1
             line1 = results.get("line1", None)
             retval = (this_line_indent, child_indent, line1)
 
@@ -384,8 +385,8 @@ def parse_line_braces(line_txt=None, comment_delimiter=None) -> tuple:
         elif braces_close_left:
             # Based off line1
             #   }
-            this_line_indent -= 1
-            child_indent -= 1
+            this_line_indent -= num_close_left
+            child_indent -= num_close_left
             retval = (this_line_indent, child_indent, "")
 
         elif braces_open_right:
-- 
2.43.0


From 0d7ab105eba7274375c1dcb3637f35c26f3d83e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:58 +0000
Subject: [PATCH 054/131] fix: HDiff() accepts CiscoConfParse() instances

---
 ciscoconfparse/ciscoconfparse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 3d9cbd4..e65f32a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4292,6 +4292,13 @@ class HDiff(object):
 
         # TODO - incorporate difflib.get_close_matches() to reorder the
         #     diff (in unified format)
+        # Diff a copy of a CiscoConfParse() instance, HDiff() rewrites the
+        # whitespace of the lines...
+        if isinstance(self.before_config, CiscoConfParse):
+            self.before_config = self.before_config.ioscfg
+        if isinstance(self.after_config, CiscoConfParse):
+            self.after_config = self.after_config.ioscfg
+
         if not isinstance(self.before_config, CiscoConfParse):
             self.parse_before = CiscoConfParse(
                 self.before_config, syntax=self.syntax,
-- 
2.43.0


From 799eb0c2ca59825e603d3af4e62a096c14ea027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:09 +0000
Subject: [PATCH 055/131] fix: HDiff() compares the configurations in all valid
 syntaxes

---
 ciscoconfparse/ciscoconfparse.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e65f32a..4711117 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4276,12 +4276,8 @@ class HDiff(object):
 
         self.build_diff_obj_lists()
 
-        if syntax == "ios":
-            self.build_ios_diffs()
-
-        elif syntax == "nxos":
-            # FIXME - I think nxos is not going to work as-expected while using `build_ios_diffs()`
-            self.build_ios_diffs()
+        # FIXME - I think nxos is not going to work as-expected while using `build_ios_diffs()`
+        self.build_ios_diffs()
 
     @ logger.catch(reraise=True)
     def parse_hdiff_configs(self):
-- 
2.43.0


From 0b65904cd092554b4fa38ec121634495d13a3450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:18 +0000
Subject: [PATCH 056/131] fix: HDiff() adds a line below its parent, not below
 an equal line elsewhere

---
 ciscoconfparse/ciscoconfparse.py | 37 +++++++++++---------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 4711117..6d26a53 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4807,10 +4807,6 @@ class HDiff(object):
                         )
                     )
 
-                # Calculate values associated with lines...
-                line_id_len = len(line_dict["diff_id_list"])
-                line_id_csv = ",".join([str(ii) for ii in line_dict["diff_id_list"]])
-
                 # check retval and find where we should "add" the
                 # line_dict...
                 if debug > 1:
@@ -4826,28 +4822,19 @@ class HDiff(object):
                             )
                         )
 
-                    this_id_len = len(this_dict["diff_id_list"])
-                    this_id_csv = ",".join(
-                        [str(ii) for ii in this_dict["diff_id_list"]]
-                    )
-
-                    # if this_dict (as a string csv) is a substring of line's csv,
-                    # check whether this_dict should be line's parent...
-                    if this_id_csv in line_id_csv:
-
-                        # If the length of this_dict["diff_id_list"] is one element
-                        # longer than line_dict["diff_id_list"], it's a pretty
-                        # safe assumption that this_dict is line_dict's parent...
-                        if (this_id_len + 1) == line_id_len:
-                            if debug > 1:
-                                logger.info(
-                                    "    compress_dict_diffs() INSERT at retval[{0}] -> {1}".format(
-                                        loop_idx + 1, this_dict
-                                    )
+                    # this_dict is line_dict's parent if line_dict's
+                    # diff_id_list is the diff_id_list of this_dict, preceded
+                    # by the id of line_dict itself...
+                    if this_dict["diff_id_list"] == line_dict["diff_id_list"][1:]:
+                        if debug > 1:
+                            logger.info(
+                                "    compress_dict_diffs() INSERT at retval[{0}] -> {1}".format(
+                                    loop_idx + 1, this_dict
                                 )
-                            retval.insert(loop_idx + 1, line_dict)
-                            lines[diff_id_list] = len(retval) - 1
-                            break
+                            )
+                        retval.insert(loop_idx + 1, line_dict)
+                        lines[diff_id_list] = len(retval) - 1
+                        break
                 else:
                     # If there's no match above, assume we add line_dict as a
                     # completely new element at the bottom of retval
-- 
2.43.0


From 7ab64a01aed18917c4865560471d60c4ed99d969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:26 +0000
Subject: [PATCH 057/131] fix: sync_diff() removes a child line below its
 parents

---
 ciscoconfparse/ciscoconfparse.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 6d26a53..cf940ce 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3866,6 +3866,8 @@ class CiscoConfParse(object):
 
         lrgx = re.compile(linespec)
         retval = []
+        # A set with the ancestry and text of all removed commands
+        removed = set()
 
         _syntax = syntax or self.syntax
         diff = HDiff(
@@ -3893,10 +3895,15 @@ class CiscoConfParse(object):
                     # planned, this manual parent handling might not be
                     # required...
                     #
-                    # Append parent remove_cmd command entries (if any...)
-                    if False:
-                        for pcmd in parents:
-                            retval.append(pcmd)
+                    # This line is gone if a parent was removed above...
+                    ancestry = tuple(parents)
+                    if any(ancestry[0:ii] in removed for ii in range(1, len(ancestry) + 1)):
+                        continue
+                    removed.add(ancestry + (command,))
+
+                    # Append parent command entries (if any...)
+                    for pcmd in parents:
+                        retval.append(pcmd)
 
                     retval.append(remove_cmd)
                 else:
-- 
2.43.0


From 0bafbac856e74338a85ead54130a4dce5e42ae04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:34 +0000
Subject: [PATCH 058/131] fix: the dhcp keyword of a static route is not a
 next-hop interface

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c112094..023b613 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2948,7 +2948,7 @@ _RE_IP_ROUTE = re.compile(
 (?P<prefix>\d+\.\d+\.\d+\.\d+)          # Prefix detection
 \s+
 (?P<netmask>\d+\.\d+\.\d+\.\d+)         # Netmask detection
-(?:\s+(?P<nh_intf>[^\d]\S+))?           # NH intf
+(?:\s+(?P<nh_intf>(?!dhcp(?:\s|$))[^\d]\S+))?  # NH intf
 (?:\s+(?P<nh_addr>\d+\.\d+\.\d+\.\d+))? # NH addr
 (?:\s+(?P<dhcp>dhcp))?           # DHCP keyword       (FIXME: add unit test)
 (?:\s+(?P<global>global))?       # Global keyword
-- 
2.43.0


From d23f775f761efa28b2cb36cb30840cd9c6521dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:41 +0000
Subject: [PATCH 059/131] fix: the network of an ipv6 route in a vrf

---
 ciscoconfparse/models_cisco.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 023b613..80fff15 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3033,13 +3033,7 @@ class IOSRouteLine(IOSCfgLine):
         if self._address_family == "ip":
             return self.route_info["prefix"]
         elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*(\S+?)\/\d+",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+            return self.route_info["prefix"]
 
     @property
     @logger.catch(reraise=True)
-- 
2.43.0


From 9a2616a677a74ff4b92768007aa8064909c9c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:48 +0000
Subject: [PATCH 060/131] fix: the next-hop of an ipv6 route in a vrf or with
 an interface and an address

---
 ciscoconfparse/models_cisco.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 80fff15..20f5da0 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3067,19 +3067,8 @@ class IOSRouteLine(IOSCfgLine):
     @property
     @logger.catch(reraise=True)
     def nexthop_str(self):
-        if self._address_family == "ip":
-            if self.next_hop_interface:
-                return self.next_hop_interface + " " + self.next_hop_addr
-            else:
-                return self.next_hop_addr
-        elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+        next_hops = [self.next_hop_interface, self.next_hop_addr]
+        return " ".join(ii for ii in next_hops if ii)
 
     @property
     @logger.catch(reraise=True)
-- 
2.43.0


From ed4e6b7662c2cb57cf1bf16f34fb5842612842d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:56 +0000
Subject: [PATCH 061/131] fix: the primary IPv4 address object is not a
 secondary address

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 20f5da0..4a35c8a 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1380,7 +1380,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         r"""Return a ccp_util.IPv4Obj object representing the address on this interface; if there is no address, return IPv4Obj()"""
 
         retval = self.re_match_iter_typed(
-            r"^\s+ip\s+address\s+(?P<v4addr>\S+)\s+(?P<v4netmask>\d+\.\d+\.\d+\.\d+)",
+            r"^\s+ip\s+address\s+(?P<v4addr>\S+)\s+(?P<v4netmask>\d+\.\d+\.\d+\.\d+)\s*$",
             groupdict={"v4addr": str, "v4netmask": str},
             default="",
         )
-- 
2.43.0


From f562ba00cfdef229da7879a44fd56a5aca931b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:03 +0000
Subject: [PATCH 062/131] fix: ip_network_object and ipv4_network_object

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 4a35c8a..e2c02b2 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1493,7 +1493,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ip_network_object(self):
         # Simplified on 2014-12-02
         try:
-            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_mask}", strict=False)
+            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_netmask}", strict=False)
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except BaseException:
-- 
2.43.0


From ecf583c9b2f3cfa31a785df7cfdb2044b2ea838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:11 +0000
Subject: [PATCH 063/131] fix: ipv6_addr of a link-local address

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index e2c02b2..4da0efa 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1764,7 +1764,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ipv6_addr(self):
         r"""Return a string with the interface's IPv6 address, or '' if there is none"""
         retval = self.re_match_iter_typed(
-            r"^\s+ipv6\s+address\s+(?P<v6addr>[^\/]+)",
+            r"^\s+ipv6\s+address\s+(?P<v6addr>[^\/\s]+)",
             result_type=str,
             default="",
         )
-- 
2.43.0


From e3463a2344dbd15b7e043d98930a4668a67c2de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:19 +0000
Subject: [PATCH 064/131] fix: in_ipv4_subnets() when there is no subnet

---
 ciscoconfparse/models_cisco.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 4da0efa..b129175 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1886,6 +1886,7 @@ class BaseIOSIntfLine(IOSCfgLine):
             raise ValueError(
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
+        tmp = False
         for subnet in subnets:
             if subnet.empty is True:
                 continue
-- 
2.43.0


From 0d4b9fa5b540602183c28d4cf4db3eefcf2ec638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:26 +0000
Subject: [PATCH 065/131] fix: manual_switch_trunk_encap of 'switchport trunk
 encapsulation'

---
 ciscoconfparse/models_cisco.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index b129175..1ceb144 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2129,8 +2129,9 @@ class BaseIOSIntfLine(IOSCfgLine):
     def manual_switch_trunk_encap(self):
         for _obj in self.children:
             _parts = _obj.text.strip().split()
-            if len(_parts) == 4 and _parts[0:3] == ["switchport", "trunk", "encap"]:
-                return _parts[3]
+            if len(_parts) == 4 and _parts[0:2] == ["switchport", "trunk"]:
+                if _parts[2] == "encap" or _parts[2] == "encapsulation":
+                    return _parts[3]
         return ""
 
     # This method is on BaseIOSIntfLine()
-- 
2.43.0


From bd767dd4f7fa85c03539611c42ed30ce270cdb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 066/131] fix: options alone do not enable port-security

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1ceb144..8a4d0db 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2153,7 +2153,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ##    unless 'switch port-security' (with no other options)
         ##    is in the configuration
         for _obj in self.children:
-            if _obj.text.strip().split()[0:2] == ["switchport", "port-security"]:
+            if _obj.text.strip().split() == ["switchport", "port-security"]:
                 return True
         return False
 
-- 
2.43.0


From 8b42a375edf5bd964d270f53a9bc046d81617d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:42 +0000
Subject: [PATCH 067/131] fix: has_dtp of a switchport without 'switchport
 nonegotiate'

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 8a4d0db..697fbe5 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2179,7 +2179,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ##   be sure I build the correct API for regex_match is False, and
         ##   default value is True
         for obj in self.children:
-            switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
+            switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$", default=None)
             if (switch is not None):
                 return False
         return True
-- 
2.43.0


From 36f9040469e12f5753b3ba0e881944e456ec5b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:51 +0000
Subject: [PATCH 068/131] fix: is_subintf of a name with a blank before the
 number

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 697fbe5..b473d9c 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -710,7 +710,7 @@ class IOSCfgLine(BaseCfgLine):
            True
            >>>
         """
-        intf_regex = r"^interface\s+(\S+?\.\d+)"
+        intf_regex = r"^interface\s+(\S+?(?:\s+\d\S*?)?\.\d+)"
         if self.re_match(intf_regex):
             return True
         return False
-- 
2.43.0


From f6512edc1680f1063795b4b525db9106411d30d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:57 +0000
Subject: [PATCH 069/131] fix: ip_helper_addresses of lines which only mention
 helper-address

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index b473d9c..be8bd65 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2086,7 +2086,7 @@ class BaseIOSIntfLine(IOSCfgLine):
            >>>"""
         retval = list()
         for child in self.children:
-            if "helper-address" in child.text:
+            if child.text.strip().split()[0:2] == ["ip", "helper-address"]:
                 addr = child.re_match_typed(
                     r"ip\s+helper-address\s.*?(\d+\.\d+\.\d+\.\d+)"
                 )
-- 
2.43.0


From 4395a8ef3ff78ca3f195985dd94e84cf2d35a8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:05 +0000
Subject: [PATCH 070/131] fix: hsrp_interfaces of lines which only mention a
 standby address

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index be8bd65..3c34105 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -918,7 +918,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         retval = set()
         for obj in self.children:
             # Get each HSRP group number...
-            if re.search(r"standby\s+(?P<group>\d+)\s+ip", obj.text.strip()):
+            if re.search(r"^standby\s+(?P<group>\d+)\s+ip", obj.text.strip()):
                 group = int(obj.text.split()[1])
                 retval.add(HSRPInterfaceGroup(group=group, parent=self))
         # Return a sorted list of HSRPInterfaceGroup() instances...
-- 
2.43.0


From bf27b1b319f36c62899f033546dd4c8c922c00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:12 +0000
Subject: [PATCH 071/131] fix: has_hsrp_preempt matched use-bia instead of
 preempt

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 3c34105..47794fd 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2523,7 +2523,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*(use-bia)",
+            r"^\s*standby\s+(\d+\s+)*(preempt)",
             group=2,
             result_type=bool,
             default=False,
-- 
2.43.0


From 543330b47f8b59639cc5c8f232f9090b5eaec04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:20 +0000
Subject: [PATCH 072/131] fix: hsrp_track of a tracked interface without a
 decrement

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 47794fd..def7ca1 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2495,7 +2495,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*track\s(\S+.+?)\s+\d+\s*",
+            r"^\s*standby\s+(\d+\s+)*track\s+(\S.+?)(?:\s+\d+)?\s*$",
             group=2,
             result_type=str,
             default="",
-- 
2.43.0


From 11875dac9ed852837758e061bcd4db64df229c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:29 +0000
Subject: [PATCH 073/131] fix: HSRP group preempt_delay was always 0

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index def7ca1..2259470 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -354,7 +354,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:4] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
+            if obj_parts[0:5] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
                 return int(obj_parts[5])
         # The default hello timer is 3 seconds...
         return 0
-- 
2.43.0


From e2cc11d1805c0b99497122a9463e2ebe371b57b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:37 +0000
Subject: [PATCH 074/131] fix: endless recursion when an HSRP group without an
 IPv4 address is printed

---
 ciscoconfparse/models_cisco.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 2259470..945aa64 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -249,9 +249,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
             obj_parts = obj.text.lower().strip().split()
             if obj_parts[0:3] == ["standby", str(self._group), "ip"]:
                 return obj_parts[-1]
-        error = f"{self} does not have an HSRP ip configured"
-        logger.error(error)
-        raise ValueError(error)
+        # Default to an empty string if there is no IPv4 HSRP addr config'd
+        return ""
 
     # This method is on HSRPInterfaceGroup()
     @property
-- 
2.43.0


From 99beb0a464101eb8d5871c08f2eef8c6367399de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:44 +0000
Subject: [PATCH 075/131] fix: HSRP group use_bia of lines which only mention
 use-bia

---
 ciscoconfparse/models_cisco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 945aa64..1aaa605 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -431,7 +431,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
     def use_bia(self):
         """Return True if the router is configured with `standby use-bia`; `standby use-bia` helps avoid instability when introducing new HSRP routers.  Return False if the router is not configured with `standby use-bia`."""
         for obj in self._parent.children:
-            if "use-bia" in obj.text:
+            obj_parts = obj.text.lower().strip().split()
+            if obj_parts[0:1] == ["standby"] and "use-bia" in obj_parts[1:3]:
                 return True
         return False
 
-- 
2.43.0


From 894a2e7878aa9b4d488e9b4620fcae7bc8054efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:53 +0000
Subject: [PATCH 076/131] fix: HSRP group authentication_md5_keychain was
 always empty

---
 ciscoconfparse/models_cisco.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1aaa605..3e7eb12 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -456,13 +456,11 @@ class HSRPInterfaceGroup(BaseCfgLine):
         """Return the string text of the MD5 key-chain if this HSRP group is configured with an MD5 authentication key-chain; otherwise return an empty string."""
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
-        retval = self.re_match_iter_typed(
-            r"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
-            group=1,
-            result_type=str,
-            default="",
-        )
-        return retval
+        for obj in self._parent.children:
+            obj_parts = obj.text.strip().split()
+            if obj_parts[0:5] == ["standby", str(self._group), "authentication", "md5", "key-chain"] and len(obj_parts) > 5:
+                return obj_parts[5]
+        return ""
 
     # This method is on HSRPInterfaceGroup()
     @property
-- 
2.43.0


From 676268070431ee320d51628b51365fa109ea5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:01 +0000
Subject: [PATCH 077/131] fix: equality, hash and str() of TrackingInterface

---
 ciscoconfparse/models_cisco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 3e7eb12..02d3729 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -79,7 +79,7 @@ class TrackingInterface(BaseCfgLine):
     # This method is on TrackingInterface()
     @logger.catch(reraise=True)
     def __str__(self):
-        return f"'{self.name}' group: {self.group}, weighting: {self.weighting}, decrement: {self.decrement}"
+        return f"'{self.name}' group: {self.tracking_interface_group}, weighting: {self.weighting}, decrement: {self.decrement}"
 
     # This method is on TrackingInterface()
     @logger.catch(reraise=True)
@@ -89,7 +89,7 @@ class TrackingInterface(BaseCfgLine):
     @logger.catch(reraise=True)
     def __hash__(self):
         """Return a hash value based on the Tracking interface group, interface name and decrement / weighting."""
-        if self._name is None or self._group is None:
+        if self.name is None or self._group is None:
             error = f"Cannot hash TrackingInterface() {self}"
             logger.critical(error)
             raise ValueError(error)
@@ -101,7 +101,7 @@ class TrackingInterface(BaseCfgLine):
     def __eq__(self, other):
         """Return True or False based on whether this Tracking interface is equal to the other instance; both instances must be a TrackingInterface() instance to compare True"""
         if isinstance(other, TrackingInterface):
-            if self.name == other.name and self.group == other.group and self._interface == other._linterface and self._decrement == other._decrement and self._weighting == other._weighting:
+            if self.name == other.name and self._group == other._group and self._interface == other._interface and self._decrement == other._decrement and self._weighting == other._weighting:
                 return True
             else:
                 return False
-- 
2.43.0


From 0008cad7b8c7700e3b479c8566fcb15338226009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:10 +0000
Subject: [PATCH 078/131] fix: HSRP group tracking interface without a
 decrement raised ValueError

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 02d3729..e8c9362 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -322,7 +322,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
                     groupdict={"intf": str, "decr": str},
                 )
                 interface = _gg["intf"]
-                if isinstance(_gg["decr"], str) and _gg["decr"] != "None":
+                if isinstance(_gg["decr"], str) and _gg["decr"].strip().isdigit():
                     decrement = int(_gg["decr"].strip())
                 retval.append(
                     TrackingInterface(
-- 
2.43.0


From 4230cf1b6d06062ef7a212d2e1ffb093eae7c385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:17 +0000
Subject: [PATCH 079/131] fix: HSRP group hold_timer of lines other than timers

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index e8c9362..17672ef 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -385,7 +385,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:2] == ["standby", str(self._group)] and obj_parts[-2] == "msec":
+            if obj_parts[0:3] == ["standby", str(self._group), "timers"] and obj_parts[-2] == "msec":
                 return float(obj_parts[-1]) / 1000.0
             elif obj_parts[0:3] == ["standby", str(self._group), "timers"]:
                 return int(obj_parts[-1])
-- 
2.43.0


From 7816fd90ccc870797f944c21a2330d5194cfc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:04 +0000
Subject: [PATCH 080/131] fix: class of global interface commands

---
 ciscoconfparse/models_cisco.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 17672ef..5eeb02c 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2699,7 +2699,7 @@ class IOSIntfGlobal(IOSCfgLine):
     @logger.catch(reraise=True)
     def is_object_for(cls, all_lines, line, re=re):
         if re.search(
-            r"^(no\s+cdp\s+run)|(logging\s+event\s+link-status\s+global)|(spanning-tree\sportfast\sdefault)|(spanning-tree\sportfast\sbpduguard\sdefault)",
+            r"^((no\s+cdp\s+run)|(logging\s+event\s+link-status\s+global)|(spanning-tree\sportfast\sdefault)|(spanning-tree\sportfast\sbpduguard\sdefault)|(spanning-tree\smode\srapid-pvst))",
             line,
         ):
             return True
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1f67686..b1253ed 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1740,7 +1740,7 @@ class NXOSIntfGlobal(BaseCfgLine):
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
         if re.search(
-            r"^(no\s+cdp\s+run)|(logging\s+event\s+link-status\s+global)|(spanning-tree\sportfast\sdefault)|(spanning-tree\sportfast\sbpduguard\sdefault)",
+            r"^((no\s+cdp\s+run)|(logging\s+event\s+link-status\s+global)|(spanning-tree\sportfast\sdefault)|(spanning-tree\sportfast\sbpduguard\sdefault)|(spanning-tree\smode\srapid-pvst))",
             line,
         ):
             return True
-- 
2.43.0


From 99024b929c580dedff02f824c49d6a77961fbdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:11 +0000
Subject: [PATCH 081/131] fix: line_range and exec-timeout of access lines

---
 ciscoconfparse/models_cisco.py | 6 +++---
 ciscoconfparse/models_nxos.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 5eeb02c..72d919d 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2836,7 +2836,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_typed(
             r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     @logger.catch(reraise=True)
@@ -2847,7 +2847,7 @@ class IOSAccessLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2857,7 +2857,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index b1253ed..a704cfd 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2000,7 +2000,7 @@ class NXOSAccessLine(BaseCfgLine):
         retval = self.re_match_typed(
             r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     def manual_exectimeout_minutes(self):
@@ -2009,7 +2009,7 @@ class NXOSAccessLine(BaseCfgLine):
 
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2018,7 +2018,7 @@ class NXOSAccessLine(BaseCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
-- 
2.43.0


From 32dad1b645130b7e60a2adf9ad0750d53356d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:18 +0000
Subject: [PATCH 082/131] fix: AAA methods after a server group, and groups
 without further methods

---
 ciscoconfparse/models_cisco.py | 16 ++++++++--------
 ciscoconfparse/models_nxos.py  | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 72d919d..6f47ece 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3247,13 +3247,13 @@ class IOSAaaLoginAuthenticationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
 
-        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.*?)$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3273,13 +3273,13 @@ class IOSAaaEnableAuthenticationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
 
-        regex = r"^aaa\s+authentication\s+enable\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authentication\s+enable\s+(\S+)\s+group\s+(\S+)(.*?)$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3299,14 +3299,14 @@ class IOSAaaCommandsAuthorizationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
 
-        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.*?)$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3326,14 +3326,14 @@ class IOSAaaConsoleAuthorizationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization console"
 
-        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.*?)$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a704cfd..7dc2daf 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2326,13 +2326,13 @@ class NXOSAaaLoginAuthenticationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
 
-        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.*?)$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2349,13 +2349,13 @@ class NXOSAaaEnableAuthenticationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
 
-        regex = r"^aaa\sauthentication\senable\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthentication\senable\s(\S+)\sgroup\s(\S+)(.*?)$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2372,14 +2372,14 @@ class NXOSAaaCommandsAuthorizationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
 
-        regex = r"^aaa\sauthorization\scommands\s(\d+)\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthorization\scommands\s(\d+)\s(\S+)\sgroup\s(\S+)(.*?)$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2396,14 +2396,14 @@ class NXOSAaaConsoleAuthorizationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization console"
 
-        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s(\S+)\s+group\s+(\S+)(.*?)$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.strip().split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
-- 
2.43.0


From cc63ec5700e9b67d976e6ef5efa5e5c1fec773ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:24 +0000
Subject: [PATCH 083/131] fix: server_private of a server without options

---
 ciscoconfparse/models_cisco.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 6f47ece..c7b5423 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3229,7 +3229,7 @@ class IOSAaaGroupServerLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def server_private(self, re=re):
         retval = set([])
-        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)\s")
+        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)(?:\s|$)")
         for cobj in self.children:
             mm = rgx_priv.search(cobj.text)
             if (mm is not None):
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 7dc2daf..0f7297b 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2310,7 +2310,7 @@ class NXOSAaaGroupServerLine(BaseCfgLine):
     @property
     def server_private(self, re=re):
         retval = set()
-        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)\s")
+        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)(?:\s|$)")
         for cobj in self.children:
             mm = rgx_priv.search(cobj.text)
             if (mm is not None):
-- 
2.43.0


From 19e0b36c52cf8fae7881a9b6af419c3726798bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:31 +0000
Subject: [PATCH 084/131] fix: source_interface of a radius server group

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c7b5423..c785490 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3219,7 +3219,7 @@ class IOSAaaGroupServerLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def source_interface(self):
         return self.re_match_iter_typed(
-            r"^\s+ip\s+tacacs\s+source-interface\s+(\S.+?\S)\s*$",
+            r"^\s+ip\s+(?:tacacs|radius)\s+source-interface\s+(\S.+?\S)\s*$",
             group=1,
             result_type=str,
             default="",
-- 
2.43.0


From 2f60e193787a09c30d9c5b1a55c04c909b35fec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:40 +0000
Subject: [PATCH 085/131] fix: ASA access-list remark of one character

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ec3ebc9..0467574 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1145,7 +1145,7 @@ _ACL_ICMP_PROTOCOLS = "alternate-address|conversion-error|echo-reply|echo|inform
 _ACL_LOGLEVELS = r"alerts|critical|debugging|emergencies|errors|informational|notifications|warnings|[0-7]"
 _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
 # remark
- (^access-list\s+(?P<acl_name0>\S+)\s+(?P<action0>remark)\s+(?P<remark>\S.+?)$)
+ (^access-list\s+(?P<acl_name0>\S+)\s+(?P<action0>remark)\s+(?P<remark>\S.*?)$)
 
 # extended service object with source network object, destination network object
 |(?:^access-list\s+(?P<acl_name1>\S+)
-- 
2.43.0


From 0a27aa1091750ef0d31cb3c0a506a586e9705398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:45 +0000
Subject: [PATCH 086/131] fix: ASA name with several blanks between address and
 name

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 0467574..5dd7bae 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -572,7 +572,7 @@ class BaseASAIntfLine(ASACfgLine):
 ##-------------  ASA name
 ##
 
-_RE_NAMEOBJECT_STR = r"^name\s+(?P<addr>\d+\.\d+\.\d+\.\d+)\s(?P<name>\S+)"
+_RE_NAMEOBJECT_STR = r"^name\s+(?P<addr>\d+\.\d+\.\d+\.\d+)\s+(?P<name>\S+)"
 _RE_NAMEOBJECT = re.compile(_RE_NAMEOBJECT_STR, re.VERBOSE)
 
 
-- 
2.43.0


From 2a8c632c594fc98a94f0a8d45634a360153962b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:53 +0000
Subject: [PATCH 087/131] fix: ASA service-object with a port operator

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 5dd7bae..77526d0 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -771,7 +771,7 @@ class ASAObjGroupNetwork(ASACfgLine):
 ##
 _RE_PORTOBJ_STR = r"""(?:                            # Non-capturing parentesis
  # service-object udp destination eq dns
- (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>\S+))
+ (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>(?:eq|neq|lt|gt)\s+\S+|range\s+\S+\s+\S+|\S+))
 |(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.+))
 |(^\s*group-object\s+(?P<groupobject>\S+))
 )                                                   # Close non-capture parens
-- 
2.43.0


From 9589ac4f7ed9d4147c6ba342d64b97a60297f867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:01 +0000
Subject: [PATCH 088/131] fix: ASA port-object with a port of one digit

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 77526d0..68abb19 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -772,7 +772,7 @@ class ASAObjGroupNetwork(ASACfgLine):
 _RE_PORTOBJ_STR = r"""(?:                            # Non-capturing parentesis
  # service-object udp destination eq dns
  (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>(?:eq|neq|lt|gt)\s+\S+|range\s+\S+\s+\S+|\S+))
-|(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.+))
+|(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.*))
 |(^\s*group-object\s+(?P<groupobject>\S+))
 )                                                   # Close non-capture parens
 """.format(
-- 
2.43.0


From e3791004bd501242eb36167476b3e99ae4302d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:09 +0000
Subject: [PATCH 089/131] fix: group-object in an ASA object-group service

---
 ciscoconfparse/ciscoconfparse.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index cf940ce..404d38c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5983,6 +5983,21 @@ class ConfigList(MutableSequence):
             retval[name] = obj
         return retval
 
+    # This method was on ASAConfigList(); now tentatively on ConfigList()
+    @ property
+    @ logger.catch(reraise=True)
+    def object_group_service(self):
+        """Return a dictionary of name to object-group service mappings"""
+        if self.syntax != "asa":
+            raise RequirementFailure()
+
+        retval = {}
+        obj_rgx = self._RE_OBJSVC
+        for obj in self.ccp_ref.find_objects(obj_rgx):
+            name = obj.re_match_typed(obj_rgx, group=1, result_type=str)
+            retval[name] = obj
+        return retval
+
     # This method was on ASAConfigList(); now tentatively on ConfigList()
     @ property
     @ logger.catch(reraise=True)
-- 
2.43.0


From 4d7d52b7e791a8914fdeb90cf8a2e5dff573a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:18 +0000
Subject: [PATCH 090/131] fix: is_virtual_intf of an ASA port-channel

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 68abb19..28b4a29 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -118,7 +118,7 @@ class ASACfgLine(BaseCfgLine):
     @property
     @logger.catch(reraise=True)
     def is_virtual_intf(self):
-        intf_regex = r"^interface\s+(Loopback|Tunnel|Virtual-Template|Port-Channel)"
+        intf_regex = r"^interface\s+(Loopback|Tunnel|Virtual-Template|Port-[Cc]hannel)"
         if self.re_match(intf_regex):
             return True
         return False
-- 
2.43.0


From 2c5bd297757de6f2cc983a259b44107ac5f9fe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:25 +0000
Subject: [PATCH 091/131] fix: description of one character on an ASA interface

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 28b4a29..e298858 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -260,7 +260,7 @@ class BaseASAIntfLine(ASACfgLine):
     @logger.catch(reraise=True)
     def description(self):
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 56b2ff2843e38f9a0af9db74534a84202e06f5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:32 +0000
Subject: [PATCH 092/131] fix: has_ip_pim_sparse_mode of an ASA interface
 raised re.error

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index e298858..31c720a 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -520,7 +520,7 @@ class BaseASAIntfLine(ASACfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\s+pim\s+sparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 80f2bbbb735fde507dd2043fb36134693b705102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:40 +0000
Subject: [PATCH 093/131] fix: has_manual_switch_trunk_encap of an ASA
 interface

---
 ciscoconfparse/models_asa.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 31c720a..2330889 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -542,6 +542,15 @@ class BaseASAIntfLine(ASACfgLine):
         )
         return retval
 
+    # This method is on BaseIOSIntfLine()
+    @property
+    @logger.catch(reraise=True)
+    def manual_switch_trunk_encap(self):
+        retval = self.re_match_iter_typed(
+            r"^\s*switchport\s+trunk\s+encap\S*\s+(\S+)\s*$", result_type=str, default=""
+        )
+        return retval
+
     # This method is on BaseIOSIntfLine()
     @property
     @logger.catch(reraise=True)
-- 
2.43.0


From 2c088149ff93bd7513333ee83267cdb84e7a1f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:47 +0000
Subject: [PATCH 094/131] fix: network object of an ASA interface without an
 IPv4 address

---
 ciscoconfparse/models_asa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 2330889..377af64 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -345,6 +345,8 @@ class BaseASAIntfLine(ASACfgLine):
     @property
     @logger.catch(reraise=True)
     def ip_network_object(self):
+        if self.ipv4_addr == "":
+            return self.default_ipv4_addr_object
         try:
             return IPv4Obj(
                 "{}/{}".format(self.ipv4_addr, self.ipv4_netmask), strict=False
-- 
2.43.0


From f3d95fbcfb6e0a76199e94cad12d687e6a0f5ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:53 +0000
Subject: [PATCH 095/131] fix: in_ipv4_subnets() of an ASA interface when there
 is no subnet

---
 ciscoconfparse/models_asa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 377af64..d936551 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -503,6 +503,7 @@ class BaseASAIntfLine(ASACfgLine):
             raise ValueError(
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
+        tmp = False
         for subnet in subnets:
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
-- 
2.43.0


From 6972a797468ba9ca77af89b013339481ff588633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:01 +0000
Subject: [PATCH 096/131] fix: ASA icmp access-list entry to any4 lost its log,
 disable and time-range

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index d936551..c79117b 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1268,7 +1268,7 @@ _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
   )
   (?:\s+       # any, any4, host foo, object-group FOO or 10.0.0.0 255.255.255.0
      (?:
-       (?P<dst_network4a>any|any4)
+       (?P<dst_network4a>any4|any)
       |(?:host\s+(?P<dst_network4b>\S+))
       |(?:object\s+(?P<dst_object4>\S+))
       |(?:object-group\s+(?P<dst_networkobject4>\S+))
-- 
2.43.0


From 133dc06c2b658abf415039c654352bddd099c1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:08 +0000
Subject: [PATCH 097/131] fix: is_subintf of a name with a blank before the
 number (NX-OS)

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0f7297b..6ea791e 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -161,7 +161,7 @@ class NXOSCfgLine(BaseCfgLine):
            True
            >>>
         """
-        intf_regex = r"^interface\s+(\S+?\.\d+)"
+        intf_regex = r"^interface\s+(\S+?(?:\s+\d\S*?)?\.\d+)"
         if self.re_match(intf_regex):
             return True
         return False
-- 
2.43.0


From 83919cfa081d3ec23b82ef67e23cd2b97e470935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:17 +0000
Subject: [PATCH 098/131] fix: is_vpc_peerlink of a vPC peer-link raised
 IndexError

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 6ea791e..924d2b3 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -286,7 +286,7 @@ urn -1 if it's not configured in a port-channel
     def is_vpc_peerlink(self):
         """Return a boolean indicating whether this port is configured as a vpc peer-link port"""
         retval = self.re_match_iter_typed(
-            r"^\s*vpc\s+peer-link", result_type=str, default=""
+            r"^\s*(vpc\s+peer-link)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 05787662d20e233dbcc7c3d1cd705f16a506db79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:23 +0000
Subject: [PATCH 099/131] fix: description of one character on an NX-OS
 interface

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 924d2b3..76e7da1 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -672,7 +672,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From e73604f5b85879e807e91b93cb6e1c85fe2b1cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:31 +0000
Subject: [PATCH 100/131] fix: in_ipv4_subnets() of an NX-OS interface when
 there is no subnet

---
 ciscoconfparse/models_nxos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 76e7da1..350e7b8 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1040,6 +1040,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             raise ValueError(
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
+        tmp = False
         for subnet in subnets:
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
-- 
2.43.0


From 27dc94b4d3697bcd1edb58a57fcce48c6f35b27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:37 +0000
Subject: [PATCH 101/131] fix: PIM modes of an NX-OS interface raised re.error

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 350e7b8..afc92b8 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1132,7 +1132,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\sdense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\sdense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1147,7 +1147,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1162,7 +1162,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-dense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-dense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From ec1319f7d840155b61f7d01129fb79d8082dbdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:45 +0000
Subject: [PATCH 102/131] fix: ip_helper_addresses of an NX-OS interface
 outside of a VRF

---
 ciscoconfparse/models_nxos.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index afc92b8..a9b43a5 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1213,16 +1213,13 @@ class BaseNXOSIntfLine(NXOSCfgLine):
            >>>"""
         retval = list()
 
+        vrf = self.vrf
         for child in self.children:
-            if "vrf member" in child.text:
-                vrf = child.re_match_typed(r"vrf\s+member\s+(\S+)", default="")
-                break
-
-        for child in self.children:
-            if "dhcp relay address" in child.text:
-                addr = child.re_match_typed(
-                    r"ip\s+dhcp\s+relay\s+address\s+(\d+\.\d+\.\d+\.\d+)"
-                )
+            addr = child.re_match_typed(
+                r"^\s*ip\s+dhcp\s+relay\s+address\s+(\d+\.\d+\.\d+\.\d+)",
+                default="",
+            )
+            if addr != "":
                 global_addr = ""
                 retval.append({"addr": addr, "vrf": vrf, "global": bool(global_addr)})
         return retval
-- 
2.43.0


From c40334de5237d3cdbf5de1fffdfd944fa3e69841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:52 +0000
Subject: [PATCH 103/131] fix: manual_switch_trunk_encap of an NX-OS interface
 was the whole command

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a9b43a5..5951c86 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1246,7 +1246,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
     def manual_switch_trunk_encap(self):
         """Return a string with the switchport encapsulation type; if there is no manual trunk encapsulation, return ''."""
         retval = self.re_match_iter_typed(
-            r"^\s*(switchport\s+trunk\s+encapsulation\s+(\S+))\s*$",
+            r"^\s*switchport\s+trunk\s+encapsulation\s+(\S+)\s*$",
             result_type=str,
             default="",
         )
-- 
2.43.0


From a8ccfd16546c9cf4b7444b5203d36f464c6786fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:59 +0000
Subject: [PATCH 104/131] fix: has_switch_stormcontrol of an NX-OS interface
 was always False

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 5951c86..329b001 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1284,7 +1284,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         if not self.is_switchport:
             return False
         retval = self.re_match_iter_typed(
-            r"^\s*(storm-control)\s*$", result_type=bool, default=False
+            r"^\s*(storm-control)\s+\S", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 3e1d6461a4dfa74d2455f7460770f033f1664b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:08 +0000
Subject: [PATCH 105/131] fix: has_dtp of an NX-OS switchport without
 'switchport nonegotiate'

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 329b001..01b5da2 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1297,7 +1297,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         ##   be sure I build the correct API for regex_match is False, and
         ##   default value is True
         for obj in self.children:
-            switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
+            switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$", default=None)
             if (switch is not None):
                 return False
         return True
-- 
2.43.0


From 9ae83ee356e69ca361e28525c3b162508fa39751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:16 +0000
Subject: [PATCH 106/131] fix: allowed VLAN lists with add, except or remove
 (NX-OS)

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 01b5da2..b532715 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1405,12 +1405,12 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                         else:
                             retval = CiscoRange(val, result_type=int)
                     elif "add" in key:
-                        retval.append(val)
+                        retval = retval + CiscoRange(val, result_type=int)
                     elif "except" in key:
                         retval = CiscoRange("1-{}".format(MAX_VLAN), result_type=int)
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
                     elif "remove" in key:
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
 
         return retval
 
-- 
2.43.0


From 4ee50e343fc36aa04d9895019a4b55818dd10343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:23 +0000
Subject: [PATCH 107/131] fix: HSRP timers of an NX-OS interface without HSRP
 raised NameError

---
 ciscoconfparse/models_nxos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index b532715..0492e18 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1543,7 +1543,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                     return timer_msec / 1000.0
                 return 0.0
 
-        return retval
+        return 0.0
 
     @property
     def hsrp_hold_timer(self):
@@ -1567,7 +1567,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                     return timer_msec / 1000.0
                 return 0.0
 
-        return retval
+        return 0.0
 
     @property
     def has_hsrp_track(self):
-- 
2.43.0


From af78382078cbb9492b80ac4cf7704cf91605a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:30 +0000
Subject: [PATCH 108/131] fix: hsrp_priority of an NX-OS interface with the
 default priority

---
 ciscoconfparse/models_nxos.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0492e18..a879295 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1518,8 +1518,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                 retval = hsrpobj.re_match_iter_typed(
                     r"^\s+priority\s+(\d+)", result_type=int, default=DEFAULT_PRI
                 )
-                if retval != DEFAULT_PRI:
-                    return retval
+                return retval
 
     @property
     def hsrp_hello_timer(self):
-- 
2.43.0


From 15270659040b16c26bdb2dcd7962e6936ff3a05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:36 +0000
Subject: [PATCH 109/131] fix: HSRP timers of an NX-OS interface with only one
 of them in milliseconds

---
 ciscoconfparse/models_nxos.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a879295..33e8434 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1529,10 +1529,10 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
                 timer_sec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+(\d+)\s+\d+", result_type=float, default=0.0
+                    r"^\s+timers\s+(\d+)\s+(?:msec\s+)?\d+", result_type=float, default=0.0
                 )
                 timer_msec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+msec\s+(\d+)\s+msec\s+\d+",
+                    r"^\s+timers\s+msec\s+(\d+)\s+(?:msec\s+)?\d+",
                     result_type=float,
                     default=0.0,
                 )
@@ -1553,10 +1553,10 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
                 timer_sec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+\d+\s+(\d+)", result_type=float, default=0.0
+                    r"^\s+timers\s+(?:msec\s+)?\d+\s+(\d+)", result_type=float, default=0.0
                 )
                 timer_msec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+msec\s+\d+\s+msec\s+(\d+)",
+                    r"^\s+timers\s+(?:msec\s+)?\d+\s+msec\s+(\d+)",
                     result_type=float,
                     default=0.0,
                 )
-- 
2.43.0


From 6f6ae5dcd76389c1e53fa467b7def8d90f69dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:42 +0000
Subject: [PATCH 110/131] fix: hsrp_authentication_md5_keychain of an NX-OS
 interface

---
 ciscoconfparse/models_nxos.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 33e8434..f1239bb 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1607,15 +1607,16 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
     @property
     def hsrp_authentication_md5_keychain(self):
-        ## FIXME nxos
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
-        retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*authentication\s+md5\s+key-chain\s+(\S+)",
-            group=2,
-            result_type=str,
-            default="",
-        )
+        retval = ""
+        for hsrpobj in self.children:
+            if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
+                retval = hsrpobj.re_match_iter_typed(
+                    r"^\s+authentication\s+md5\s+key-chain\s+(\S+)",
+                    result_type=str,
+                    default="",
+                )
         return retval
 
     @property
-- 
2.43.0


From a72485c9a9d133bbbad2947ed348e91432838a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:51 +0000
Subject: [PATCH 111/131] fix: has_ip_arp_synchronize of a vPC domain with 'no
 ip arp synchronize'

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index f1239bb..0663b57 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1860,7 +1860,7 @@ class NXOSvPCLine(BaseCfgLine):
     @property
     def has_ip_arp_synchronize(self):
         retval = self.re_match_iter_typed(
-            r"(ip\s+arp\s+synchronize)", result_type=bool, default=False
+            r"^\s+(ip\s+arp\s+synchronize)", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 74eb2121a2e0499366c51628899ea5f444ba45df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:58 +0000
Subject: [PATCH 112/131] fix: timeout of a vPC peer-keepalive with only a
 hold-timeout

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0663b57..b0d89c4 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1879,7 +1879,7 @@ class NXOSvPCLine(BaseCfgLine):
             r"peer-keepalive\s+.*?interval\s+(\d+)", result_type=int, default=-1
         )
         timeout = self.re_match_iter_typed(
-            r"peer-keepalive\s+.*?timeout\s+(\d+)", result_type=int, default=-1
+            r"peer-keepalive\s+.*?(?<!hold-)timeout\s+(\d+)", result_type=int, default=-1
         )
         prec = self.re_match_iter_typed(
             r"peer-keepalive\s+.*?precedence\s+(\S+)", result_type=str, default=""
-- 
2.43.0


From 5fd2d8ed3a10af720a4e66457d50cb138dbac641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:04 +0000
Subject: [PATCH 113/131] fix: repr() and routeinfo of an NX-OS IPv6 route

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index b0d89c4..4a0656f 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2258,7 +2258,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 
     @property
     def tracking_object_name(self):
-        return self.route_info["track_group"]
+        return self.route_info.get("track_group", None)
 
 
 ################################
-- 
2.43.0


From d51250e88bd80b4c1b2b1d4d90cb58f121389737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:11 +0000
Subject: [PATCH 114/131] fix: network of an NX-OS IPv6 route in a VRF

---
 ciscoconfparse/models_nxos.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 4a0656f..3aee890 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2168,16 +2168,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 
     @property
     def network(self):
-        if self._address_family == "ip":
-            return self.route_info["prefix"]
-        elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*(\S+?)\/\d+",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+        return self.route_info["prefix"]
 
     @property
     def netmask(self):
-- 
2.43.0


From 9d5cbc7074775c172d975db602ead36d4a34c535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:18 +0000
Subject: [PATCH 115/131] fix: nexthop_str of NX-OS routes in a VRF, by
 interface and address, and without an address

---
 ciscoconfparse/models_nxos.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 3aee890..945e85c 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2194,19 +2194,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 
     @property
     def nexthop_str(self):
-        if self._address_family == "ip":
-            if self.next_hop_interface:
-                return self.next_hop_interface + " " + self.next_hop_addr
-            else:
-                return self.next_hop_addr
-        elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+        return (self.next_hop_interface + " " + self.next_hop_addr).strip()
 
     @property
     def next_hop_interface(self):
-- 
2.43.0


From 51915c6fee71944bb37600589672cd3dceeded1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:25 +0000
Subject: [PATCH 116/131] fix: CiscoPassword().decrypt() of a text without an
 encrypted password raised AttributeError

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 404d38c..22f3ed4 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -6106,8 +6106,8 @@ class CiscoPassword(object):
         dp = ""
         regex = re.compile("^(..)(.+)")
         ep = ep or self.ep
-        if not (len(ep) & 1):
-            result = regex.search(ep)
+        result = regex.search(ep)
+        if result is not None and not (len(ep) & 1):
             try:
                 s, e = int(result.group(1)), result.group(2)
             except ValueError:
-- 
2.43.0


From ee100bd99d3e8b7cd83b9cd379a0ccf0c76f6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:30 +0000
Subject: [PATCH 117/131] fix: req_cfgspec_all_diff(ignore_ws=True) took
 required lines for regular expressions

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 22f3ed4..c239993 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3541,7 +3541,7 @@ class CiscoConfParse(object):
         rgx = dict()
         if ignore_ws is True:
             for line in cfgspec:
-                rgx[line] = build_space_tolerant_regex(line)
+                rgx[line] = r"\s+".join([re.escape(ii) for ii in line.split()])
 
         skip_cfgspec = dict()
         retval = list()
-- 
2.43.0


From a188cb67912b7f64bbc5d6715eeaf9d5903681c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:38 +0000
Subject: [PATCH 118/131] fix: req_cfgspec_all_diff() reported required lines
 without letters although they are there

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index c239993..4930e5e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3545,7 +3545,7 @@ class CiscoConfParse(object):
 
         skip_cfgspec = dict()
         retval = list()
-        matches = self._find_line_OBJ("[a-zA-Z]")
+        matches = self._find_line_OBJ(r"\S")
         # Make a list of unnecessary cfgspec lines
         for lineobj in matches:
             for reqline in cfgspec:
-- 
2.43.0


From eda9ea81be3b62bd2c7ad3d2290427a811342586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:46 +0000
Subject: [PATCH 119/131] fix: add_uncfgtext() of a command with 'no'

---
 ciscoconfparse/ccp_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 74d67fe..525202d 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -606,7 +606,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         deprecation_warn_str = "add_uncfgtext() is deprecated and will be removed."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
         ## remove any preceeding "no " from Cisco IOS commands...
-        conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", "\3", unconftext)
+        conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", r"\3", unconftext)
         myindent = self.parent.child_indent
 
         # write access to self.uncfgtext is not supported
-- 
2.43.0


From 11901673443a8d06d7337f069814a4faaf34ac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:30:52 +0000
Subject: [PATCH 120/131] fix: add_uncfgtext() indented the removal of a root
 line with children

---
 ciscoconfparse/ccp_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 525202d..d55fa2f 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -607,7 +607,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         warnings.warn(deprecation_warn_str, DeprecationWarning)
         ## remove any preceeding "no " from Cisco IOS commands...
         conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", r"\3", unconftext)
-        myindent = self.parent.child_indent
+        myindent = self.indent
 
         # write access to self.uncfgtext is not supported
         self._uncfgtext_to_be_deprecated = myindent * " " + "no " + conftext
-- 
2.43.0


From 573059d8e23efcf803197c6ecf318c000c147c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:54 +0000
Subject: [PATCH 121/131] fix: slicing, copying, adding and multiplying a
 ConfigList raised ValueError

---
 ciscoconfparse/ciscoconfparse.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 4930e5e..11bc2df 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5048,10 +5048,18 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def __getitem__(self, ii):
         if isinstance(ii, slice):
-            return self.__class__(self._list[ii])
+            return self._copy_with(self._list[ii])
         else:
             return self._list[ii]
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _copy_with(self, objs):
+        """Return a ConfigList() like this one, which holds the line objects in ``objs``"""
+        retval = self.__copy__()
+        retval._list = objs
+        return retval
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __setitem__(self, ii, val):
@@ -5068,19 +5076,19 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def __add__(self, other):
         if isinstance(other, ConfigList):
-            return self.__class__(self._list + other._list)
+            return self._copy_with(self._list + other._list)
         elif isinstance(other, type(self._list)):
-            return self.__class__(self._list + other)
-        return self.__class__(self._list + list(other))
+            return self._copy_with(self._list + other)
+        return self._copy_with(self._list + list(other))
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __radd__(self, other):
         if isinstance(other, ConfigList):
-            return self.__class__(other._list + self._list)
+            return self._copy_with(other._list + self._list)
         elif isinstance(other, type(self._list)):
-            return self.__class__(other + self._list)
-        return self.__class__(list(other) + self._list)
+            return self._copy_with(other + self._list)
+        return self._copy_with(list(other) + self._list)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5096,7 +5104,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __mul__(self, val):
-        return self.__class__(self._list * val)
+        return self._copy_with(self._list * val)
 
     __rmul__ = __mul__
 
@@ -5183,7 +5191,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def copy(self):
-        return self.__class__(self)
+        return self.__copy__()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 2a65e38c9b2c45ff4a2ebca9d69ad684144cc637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:00 +0000
Subject: [PATCH 122/131] fix: <= of equal ConfigLists was False

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 11bc2df..a68f988 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5017,7 +5017,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __le__(self, other):
-        return self._list < self.__cast(other)
+        return self._list <= self.__cast(other)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 6d6f4518ae553a6690b8a6db5e63ed0d3ae2ecea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:07 +0000
Subject: [PATCH 123/131] fix: ConfigList().sort() raised TypeError without an
 argument

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index a68f988..8a1197a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5210,7 +5210,7 @@ class ConfigList(MutableSequence):
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-    def sort(self, _unknown_arg, *args, **kwds):
+    def sort(self, _unknown_arg=None, *args, **kwds):
         self._list.sort(*args, **kwds)
 
     # This method is on ConfigList()
-- 
2.43.0


From 494748efed3fd0bcd105479decb4333960a5df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:13 +0000
Subject: [PATCH 124/131] fix: removing a line from a ConfigList left stale
 line numbers

---
 ciscoconfparse/ciscoconfparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 8a1197a..c8c9126 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5176,12 +5176,15 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def pop(self, ii=-1):
-        return self._list.pop(ii)
+        retval = self._list.pop(ii)
+        self.reassign_linenums()
+        return retval
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def remove(self, val):
         self._list.remove(val)
+        self.reassign_linenums()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 51f300c81e74b9d7f0eaae0592e8b0ccb47bdc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:39 +0000
Subject: [PATCH 125/131] fix: IOS-XR: descriptions and duplex values of one
 character

---
 ciscoconfparse/models_iosxr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 96124a5..9d5e338 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -785,7 +785,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
@@ -928,7 +928,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def has_manual_duplex(self):
         retval = self.re_match_iter_typed(
-            r"^\s*duplex\s+(\S.+)$", result_type=bool, default=False
+            r"^\s*duplex\s+(\S.*)$", result_type=bool, default=False
         )
         return retval
 
@@ -1061,7 +1061,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def manual_duplex(self):
         retval = self.re_match_iter_typed(
-            r"^\s*duplex\s+(\S.+)$", result_type=str, default=""
+            r"^\s*duplex\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From b6bf667b6462784f96f217363e5f6fd2db7098d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:47 +0000
Subject: [PATCH 126/131] fix: IOS-XR: vrf and has_vrf raised IndexError

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 9d5e338..606bca5 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1104,7 +1104,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     def vrf(self):
         # See Github Issue #235...
         retval = self.re_match_iter_typed(
-            r"^\s*vrf\s(\S+)$", result_type=str, group=2, default=""
+            r"^\s*vrf\s+(\S+)\s*$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 0e0edf7f5612c7633df90b4f01ec87d7e01d6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:55 +0000
Subject: [PATCH 127/131] fix: IOS-XR: IPv4 access-groups and MTU as IOS-XR
 writes them

---
 ciscoconfparse/models_iosxr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 606bca5..a23c47f 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1043,7 +1043,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         ## Due to the diverse platform defaults, this should be the
         ##    only mtu information I plan to support
         retval = self.re_match_iter_typed(
-            r"^\s*ip\s+mtu\s+(\d+)$", result_type=int, default=0
+            r"^\s*(?:ip|ipv4)\s+mtu\s+(\d+)$", result_type=int, default=0
         )
         return retval
 
@@ -1915,7 +1915,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def ipv4_accessgroup_in(self):
         retval = self.re_match_iter_typed(
-            r"^\s*ip\saccess-group\s+(\S+)\s+in\s*$", result_type=str, default=""
+            r"^\s*(?:ip|ipv4)\s+access-group\s+(\S+)\s+(?:in|ingress)\s*$", result_type=str, default=""
         )
         return retval
 
@@ -1924,7 +1924,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def ipv4_accessgroup_out(self):
         retval = self.re_match_iter_typed(
-            r"^\s*ip\saccess-group\s+(\S+)\s+out\s*$", result_type=str, default=""
+            r"^\s*(?:ip|ipv4)\s+access-group\s+(\S+)\s+(?:out|egress)\s*$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 2e27b5742b3a0c8e451906f94d337e66e0bf4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:04 +0000
Subject: [PATCH 128/131] fix: IOS-XR: in_ipv4_subnets without subnets

---
 ciscoconfparse/models_iosxr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index a23c47f..45a0402 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1235,6 +1235,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
             raise ValueError(
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
+        tmp = False
         for subnet in subnets:
             tmp = self.in_ipv4_subnet(ipv4network=subnet)
             if self.ipv4_addr_object in subnet:
-- 
2.43.0


From ce47ad2d1ef0b292002e90111d3bf91731f9a81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:11 +0000
Subject: [PATCH 129/131] fix: a configuration file given as pathlib.Path
 raised TypeError

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index c8c9126..b512e0e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -738,7 +738,7 @@ class CiscoConfParse(object):
         self.encoding = encoding or ENCODING
         self.read_only = read_only
 
-        if len(config) > 0:
+        if not isinstance(config, pathlib.Path) and len(config) > 0:
             try:
                 correct_element_types = []
                 for ii in config:
-- 
2.43.0


From b63de98438a1449970fa9011e7276319f34759ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:19 +0000
Subject: [PATCH 130/131] fix: the line end of the last line of a file was read
 as one more blank line

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index b512e0e..f4a8d5d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -910,6 +910,9 @@ class CiscoConfParse(object):
                 text = fh.read()
             rgx = re.compile(linesplit_rgx)
             config_lines = rgx.split(text)
+            if config_lines[-1] == "":
+                # The last line of the file ended with a line separator
+                config_lines.pop()
             return config_lines
 
         except OSError:
-- 
2.43.0


From 5214610e23d99a892b4d23a52ef72c5e60b8663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:26 +0000
Subject: [PATCH 131/131] fix: Diff() of a new configuration in a file, or
 without a configuration, raised AttributeError

---
 ciscoconfparse/ciscoconfparse.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index f4a8d5d..87fc93d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4048,10 +4048,11 @@ class Diff(object):
         # Handle old_config
         ######################################################################
         if old_config is None:
-            old_config = []
+            old_config = ""
         elif isinstance(old_config, str) and len(old_config.splitlines()) == 1 and os.path.isfile(old_config):
             # load the old config from a file as a string...
-            old_config = open(old_config).read()
+            with open(old_config) as fh:
+                old_config = fh.read()
         elif isinstance(old_config, str):
             pass
         elif isinstance(old_config, (list, tuple)):
@@ -4065,10 +4066,11 @@ class Diff(object):
         # Handle new_config
         ######################################################################
         if new_config is None:
-            new_config = []
+            new_config = ""
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
-            # load the new config from a file as a list...
-            new_config = open(new_config).read().splitlines()
+            # load the new config from a file as a string...
+            with open(new_config) as fh:
+                new_config = fh.read()
         elif isinstance(new_config, str):
             pass
         elif isinstance(new_config, (list, tuple)):
-- 
2.43.0

