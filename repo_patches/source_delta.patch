From bbab7ecb77a8c90c27ca11fcab4fcd62a56cb835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:25 +0000
Subject: [PATCH 001/139] fix: accept a pathlib.Path as the configuration file

The constructor called len() on the path and raised TypeError, although
pathlib.Path is explicitly supported further down.
---
 ciscoconfparse/ciscoconfparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 998817f..11f18f4 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -725,7 +725,10 @@ class CiscoConfParse(object):
         self.encoding = encoding or ENCODING
         self.read_only = read_only
 
-        if len(config) > 0:
+        # pathlib.Path() instances have no len(); they are filenames
+        if isinstance(config, pathlib.Path):
+            elements_have_len = None
+        elif len(config) > 0:
             try:
                 correct_element_types = []
                 for ii in config:
-- 
2.43.0


From 15dcf6bed2b1557de13af8e297b94f6b4b6952a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:43 +0000
Subject: [PATCH 002/139] fix: accept a tuple of lines with factory=True

The line factory requires a list and rejected the tuple that the plain
parser accepts.
---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 11f18f4..f73dee9 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -762,7 +762,7 @@ class CiscoConfParse(object):
             if ignore_blank_lines is True and factory is False:
                 tmp_lines = [ii for ii in config if len(ii) != 0]
             else:
-                tmp_lines = config
+                tmp_lines = list(config)
         else:
             error = f"Cannot read config from {config}"
             logger.critical(error)
-- 
2.43.0


From e90291a897d233dfd8bac600459cab8d89a36327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 003/139] fix: read the same lines from a file as from a list

The newline which ends the last line of a file produced an extra blank
line when blank lines are kept (and each save_as() / parse cycle added
one more); with blank lines ignored, a leading blank line shifted all the
line numbers.
---
 ciscoconfparse/ciscoconfparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index f73dee9..724dea8 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -756,6 +756,7 @@ class CiscoConfParse(object):
         if isinstance(config, (str, pathlib.Path,)):
             if ignore_blank_lines is True and factory is False:
                 tmp_lines = self.read_config_file(filepath=config, linesplit_rgx=r"\r*\n+")
+                tmp_lines = [ii for ii in tmp_lines if len(ii) != 0]
             else:
                 tmp_lines = self.read_config_file(filepath=config, linesplit_rgx=r"\r*\n")
         elif isinstance(config, Sequence):
@@ -900,6 +901,10 @@ class CiscoConfParse(object):
                 text = fh.read()
             rgx = re.compile(linesplit_rgx)
             config_lines = rgx.split(text)
+            # The newline at the end of the last line does not start another
+            # (blank) line...
+            if config_lines[-1] == "":
+                config_lines.pop()
             return config_lines
 
         except OSError:
-- 
2.43.0


From 3cb4aec4d92c74fc84a7a63ad0d5668420c34ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 004/139] fix: parse an empty brace-delimited configuration

Every other syntax accepts an empty configuration.
---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 724dea8..aa9e92a 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -811,7 +811,7 @@ class CiscoConfParse(object):
         ######################################################################
         # Explicitly handle all brace-parsing factory syntax here...
         ######################################################################
-        if syntax == "junos":
+        if syntax == "junos" and len(tmp_lines) > 0:
             config_lines = convert_junos_to_ios(tmp_lines, comment_delimiter="#")
         elif syntax in ALL_VALID_SYNTAX:
             config_lines = tmp_lines
-- 
2.43.0


From 1edd79c122ecce318c1539ce3fa22c1e26e11f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 005/139] fix: list each banner and macro body line once, under
 its banner or macro

An indented body line was also kept in the children of the line it had
been attached to by its indentation; directly below the banner this
listed it twice in the banner's children.
---
 ciscoconfparse/ciscoconfparse.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index aa9e92a..2129762 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5631,9 +5631,7 @@ class ConfigList(MutableSequence):
                                 ),
                             )
                         # blank_line_keep for Github Issue #229
-                        parent.children.append(obj)
-                        parent.child_indent = 0
-                        obj.parent = parent
+                        self._adopt_body_line(parent, obj)
                         break
                     else:
                         # all non-banner-parent lines should hit this condition
@@ -5643,14 +5641,22 @@ class ConfigList(MutableSequence):
                     # Commenting the following lines out; fix Github issue #115
                     # elif obj.is_comment and (obj.indent == 0):
                     #    break
-                    parent.children.append(obj)
-                    parent.child_indent = 0
-                    obj.parent = parent
+                    self._adopt_body_line(parent, obj)
                     obj.blank_line_keep = True
 
                 except IndexError:
                     break
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _adopt_body_line(self, parent, obj):
+        """Make obj (a line in the body of a banner or macro) a child of parent; remove it from the children of the parent which was assigned because of its indentation."""
+        if obj.parent is not obj:
+            obj.parent.children = [ii for ii in obj.parent.children if ii is not obj]
+        parent.children.append(obj)
+        parent.child_indent = 0
+        obj.parent = parent
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def _macro_mark_children(self, macro_parent_idx_list):
@@ -5673,8 +5679,7 @@ class ConfigList(MutableSequence):
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-                cobj.parent = pobj
-                pobj.children.append(cobj)
+                self._adopt_body_line(pobj, cobj)
                 # If we hit the end of the macro, break out of the loop
                 if cobj.text.rstrip() == "@":
                     finished = True
-- 
2.43.0


From 5a26b9bc99c2ea03c9c3351e9fd2c3f5b28d85d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 006/139] fix: compare configuration lines by line number and
 text

Line 1 '2 foo' and line 12 ' foo' had the same hash() and were equal,
because the line number and the text were concatenated.  Searches and
family relations dropped one of two such lines.
---
 ciscoconfparse/ccp_abc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index bab75bf..885c234 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -129,7 +129,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     def __hash__(self):
         ##   I inlined the hash() argument below for speed... whenever I change
         ##   self.__eq__() I *must* change this
-        return hash(str(self.linenum) + self.text)
+        return hash((self.linenum, self.text))
 
     # On BaseCfgLine()
     @logger.catch(reraise=True)
@@ -150,9 +150,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             ##   I added hash_arg() inline below for speed... whenever I change
             ##   self.__hash__() I *must* change this
             # FIXME
-            return hash(str(self.linenum) + self.text) == hash(
-                str(val.linenum) + val.text
-            )
+            return (self.linenum, self.text) == (val.linenum, val.text)
         except Exception:
             return False
 
-- 
2.43.0


From a895af1c726f305e52d93b92d6c80c9509e8d924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:56 +0000
Subject: [PATCH 007/139] fix: find the end delimiter of a one-line banner
 after the begin delimiter

A banner delimited by a letter of 'banner <type>' itself was mistaken for
a one-line banner, and its body was parsed as commands.
---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 2129762..b1eaf38 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5596,8 +5596,8 @@ class ConfigList(MutableSequence):
             while bannerdelimit is not None:
                 ## Check whether the banner line has both begin and end delimter
                 if idx == parent.linenum:
-                    parts = parent.text.split(bannerdelimit)
-                    if len(parts) > 2:
+                    # Do not look for the delimiter in 'banner motd' itself
+                    if bannerdelimit in parent.text[mm.end("bchar"):]:
                         ## banner has both begin and end delimiter on one line
                         if self.debug > 0:
                             logger.debug(
-- 
2.43.0


From 473db768dcdadb4f7b997b41bbce024f34e4e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:03 +0000
Subject: [PATCH 008/139] fix: recognise the delimiter of a banner after
 repeated spaces

The expression which finds banners accepts several spaces after 'banner',
the one which finds their delimiter accepted one only.
---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index b1eaf38..3a02fb6 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5566,7 +5566,7 @@ class ConfigList(MutableSequence):
             filter(lambda obj: regex.search(obj.text), self._list),
         )
 
-        banner_re_str = r"^(?:(?P<btype>(?:set\s+)*banner\s\w+\s+)(?P<bchar>\S))"
+        banner_re_str = r"^(?:(?P<btype>(?:set\s+)*banner\s+\w+\s+)(?P<bchar>\S))"
         for parent in banner_objs:
             # blank_line_keep for Github Issue #229
             parent.blank_line_keep = True
-- 
2.43.0


From 09440904b9c0666de096c463db64b9f4d0b5df40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:36 +0000
Subject: [PATCH 009/139] fix: attach the body of 'aaa authentication
 fail-message' to its first line

It was listed as a banner, but its delimiter was never found.
---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 3a02fb6..1089397 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5566,7 +5566,7 @@ class ConfigList(MutableSequence):
             filter(lambda obj: regex.search(obj.text), self._list),
         )
 
-        banner_re_str = r"^(?:(?P<btype>(?:set\s+)*banner\s+\w+\s+)(?P<bchar>\S))"
+        banner_re_str = r"^(?:(?P<btype>(?:(?:set\s+)*banner\s+\w+|aaa authentication fail-message)\s+)(?P<bchar>\S))"
         for parent in banner_objs:
             # blank_line_keep for Github Issue #229
             parent.blank_line_keep = True
-- 
2.43.0


From e99884fc12eb3ca6bbe55ddb5b150f6cea33cb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:11 +0000
Subject: [PATCH 010/139] fix: parse a configuration which ends inside of a
 macro

A macro without its end mark raised IndexError; a banner without its end
delimiter is accepted and runs to the end of the configuration.
---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1089397..95a9288 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5676,6 +5676,9 @@ class ConfigList(MutableSequence):
             finished = False
             while not finished:
                 idx += 1
+                if idx >= len(self._list):
+                    # The macro has no end mark
+                    break
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-- 
2.43.0


From e1e1c0e2d6ffa4b13af8a8ed304e79b0f0a70dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:37 +0000
Subject: [PATCH 011/139] fix: match the whole line for every alternative with
 exactmatch=True

'^%s$' anchors only the first and the last alternative of an expression
such as 'a|b'.
---
 ciscoconfparse/ciscoconfparse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 95a9288..333b98e 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1417,7 +1417,7 @@ class CiscoConfParse(object):
 
         elif exactmatch is True:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^{}$".format(dnaspec))
+            linespec_re = re.compile("^(?:{})$".format(dnaspec))
 
         return list(
             filter(lambda obj: linespec_re.search(obj.dna), self.ConfigObjs),
@@ -1504,7 +1504,7 @@ class CiscoConfParse(object):
         else:
             # Return the lines in self.ioscfg, which match (exactly) linespec
             return list(
-                filter(re.compile("^%s$" % linespec).search, self.ioscfg),
+                filter(re.compile("^(?:%s)$" % linespec).search, self.ioscfg),
             )
 
     # This method is on CiscoConfParse()
@@ -1552,7 +1552,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1632,7 +1632,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1745,7 +1745,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             objs = self._find_line_OBJ(linespec)
         else:
-            objs = self._find_line_OBJ("^%s$" % linespec)
+            objs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         for obj in objs:
             tmp.add(obj)
@@ -3945,7 +3945,7 @@ class CiscoConfParse(object):
             linespec_re = re.compile(linespec)
         elif exactmatch:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^%s$" % linespec)
+            linespec_re = re.compile("^(?:%s)$" % linespec)
 
         return list(
             filter(lambda obj: linespec_re.search(obj.text), self.ConfigObjs),
-- 
2.43.0


From dafe1af90c5faf096f66c33fe0dede6480b04e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 012/139] fix: search for a child given as a line object

The text of the child replaced the parent specification, and the object
itself was used as the child's regular expression.
---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 333b98e..bca25fc 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1925,7 +1925,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2324,7 +2324,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws is True:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2702,7 +2702,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
-- 
2.43.0


From 13cae7c23da874aecd514868dce383a709b7eadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:41 +0000
Subject: [PATCH 013/139] fix: find children whose match is empty or uses
 inline flags

find_child_objects() wrapped the expression in a group and tested the
captured text, so that '^' or 'x*' found no child, '(?i)x' was an error
and back-references were shifted.
---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index bca25fc..2eb2219 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2723,7 +2723,7 @@ class CiscoConfParse(object):
                 # If recurse is False, only search direct children
                 ##############################################################
                 for child in parent.children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if re.search(childspec, child.text):
                         retval.add(child)
         else:
             for parent in parents:
@@ -2732,7 +2732,7 @@ class CiscoConfParse(object):
                 #    of the children
                 ##############################################################
                 for child in parent.all_children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if re.search(childspec, child.text):
                         retval.add(child)
 
         return sorted(retval)
-- 
2.43.0


From 8ec8f446ea46d9f5fcca0a5675b624cc7effd4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 014/139] fix: find_object_branches() with a single expression

A one-element branchspec raised UnboundLocalError.
---
 ciscoconfparse/ciscoconfparse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 2eb2219..3d342ef 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1243,8 +1243,6 @@ class CiscoConfParse(object):
                 # Ensure we have the most recent branches...
                 branches = new_branches
 
-        branches = new_branches
-
         # If regex_groups is True, assign regexp matches to the return matrix.
         if regex_groups is True:
             return_matrix = []
-- 
2.43.0


From 687ae895075dd8a5d69b869feab771135fceb515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:12 +0000
Subject: [PATCH 015/139] fix: apply regex_flags to the first level of
 find_object_branches()

The flags were also not applied when the regex groups are extracted.
---
 ciscoconfparse/ciscoconfparse.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 3d342ef..1abc071 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1172,10 +1172,7 @@ class CiscoConfParse(object):
 
             # Get the child objects from parent objects
             if parent_obj is None:
-                children = self._find_line_OBJ(
-                    linespec=childspec,
-                    exactmatch=False,
-                )
+                children = self.ConfigObjs
             else:
                 children = parent_obj.children
 
@@ -1263,7 +1260,7 @@ class CiscoConfParse(object):
                         return_row[idx] = (None,)
 
                     else:
-                        regex_result = re.search(branchspec[idx], element.text)
+                        regex_result = re.search(branchspec[idx], element.text, regex_flags)
                         if regex_result is not None:
                             # Save all the regex capture groups in matched_capture...
                             matched_capture = regex_result.groups()
-- 
2.43.0


From baf78a345ea7536c7eca7ae20fc7cf8291816f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:28 +0000
Subject: [PATCH 016/139] fix: cast every matched named group to its type

---
 ciscoconfparse/ccp_abc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 885c234..258ef30 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1015,9 +1015,14 @@ class BaseCfgLine(metaclass=ABCMeta):
             # in `type_dict`...
             _groupdict = regex.groupdict()
             for _regex_key, _type in type_dict.items():
-                retval[_regex_key] = _groupdict.get(_regex_key, default)
-                if _type is not None and retval[_regex_key] != default:
-                    retval[_regex_key] = _type(retval[_regex_key])
+                _value = _groupdict.get(_regex_key, None)
+                if _value is None:
+                    # This regex key did not match...
+                    retval[_regex_key] = default
+                elif _type is None:
+                    retval[_regex_key] = _value
+                else:
+                    retval[_regex_key] = _type(_value)
         elif regex is None and isinstance(type_dict, dict):
             # If the regex did not match, None is returned... and we should
             # assign the default to the regex key...
-- 
2.43.0


From ea525581315b349538e34f96174056cecfea792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:36 +0000
Subject: [PATCH 017/139] fix: search all children for named groups with
 recurse=False

---
 ciscoconfparse/ccp_abc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 258ef30..a351805 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1392,12 +1392,13 @@ class BaseCfgLine(metaclass=ABCMeta):
             if recurse is False:
                 for cobj in self.children:
                     mm = re.search(regex, cobj.text)
-                    return self.get_typed_dict(
-                        regex=mm,
-                        type_dict=groupdict,
-                        default=default,
-                        debug=debug,
-                    )
+                    if isinstance(mm, re.Match):
+                        return self.get_typed_dict(
+                            regex=mm,
+                            type_dict=groupdict,
+                            default=default,
+                            debug=debug,
+                        )
                 return self.get_typed_dict(
                     regex=mm,
                     type_dict=groupdict,
-- 
2.43.0


From c2de3884457935abdf1e2693c1e1ba029d8a1439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 018/139] fix: insert lines once, next to the requested lines

---
 ciscoconfparse/ccp_abc.py        |  12 ++--
 ciscoconfparse/ciscoconfparse.py | 104 +++++++++++++------------------
 2 files changed, 50 insertions(+), 66 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index a351805..6f83750 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -804,10 +804,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             calling_filename, calling_lineno, calling_function, insertstr
         )
         if isinstance(insertstr, str) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr, atomic=False)
 
         elif isinstance(insertstr, BaseCfgLine) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             raise ValueError(error)
@@ -823,7 +823,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         # Fail if insertstr is not the correct object type...
         #   only strings and *CfgLine() are allowed...
-        if not isinstance(insertstr, str) and not isinstance(insertstr, "BaseCfgLine"):
+        if not isinstance(insertstr, str) and not isinstance(insertstr, BaseCfgLine):
             error = "Cannot insert object type - %s" % type(insertstr)
             logger.error(error)
             raise NotImplementedError(error)
@@ -838,11 +838,11 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         if isinstance(insertstr, str) is True:
             # Handle insertion of a plain-text line
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr, atomic=False)
 
-        elif isinstance(insertstr, "BaseCfgLine"):
+        elif isinstance(insertstr, BaseCfgLine):
             # Handle insertion of a configuration line obj such as IOSCfgLine()
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             error = "FATAL CALL: in {} line {} {}(insertstr='{}')".format(
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1abc071..1753dbe 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2886,11 +2886,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_before(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_before(exist_val, new_val)
+                self.ConfigObjs.insert_before(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3004,11 +3004,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_after(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_after(exist_val, new_val)
+                self.ConfigObjs.insert_after(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -5257,6 +5257,38 @@ class ConfigList(MutableSequence):
 
     ##############################################################################
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _find_insert_indexes(self, exist_val):
+        """Return the list indexes of the lines referenced by ``exist_val``: one specific line if ``exist_val`` is a configuration line object, or all lines which match if ``exist_val`` is a regular expression string."""
+        if isinstance(exist_val, BaseCfgLine):
+            all_idx = [idx for idx, obj in enumerate(self._list) if obj is exist_val]
+            if len(all_idx) == 0:
+                # exist_val is from an earlier parse of this configuration...
+                all_idx = [idx for idx, obj in enumerate(self._list) if obj.text == exist_val.text]
+            return all_idx
+        return [idx for idx, obj in enumerate(self._list) if re.search(exist_val, obj.text)]
+
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _build_insert_obj(self, new_val):
+        """Return a new configuration line object for the text in ``new_val``."""
+        if self.factory:
+            obj = config_line_factory(
+                all_lines=self._list,
+                line=new_val,
+                comment_delimiter=self.comment_delimiter,
+                syntax=self.syntax,
+            )
+        else:
+            obj = CFGLINE[self.syntax](
+                all_lines=self._list,
+                line=new_val,
+                comment_delimiter=self.comment_delimiter,
+            )
+        obj.confobj = self
+        return obj
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def insert_before(self, exist_val=None, new_val=None, atomic=False):
@@ -5306,13 +5338,13 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise InvalidParameters(error)
 
-        # exist_val MUST be a string
+        # exist_val MUST be a string or BaseCfgLine
         if isinstance(exist_val, str) is True and exist_val != "":
             pass
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(error)
@@ -5329,35 +5361,11 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise ValueError(error)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(error)
-            raise ValueError(error)
-
         # Find all config lines which need to be modified... store in all_idx
-
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj.text)
-        ]
+        all_idx = self._find_insert_indexes(exist_val)
         for idx in sorted(all_idx, reverse=True):
             # insert at idx - 0 implements 'insert_before()'...
-            self._list.insert(idx, new_obj)
+            self._list.insert(idx, self._build_insert_obj(new_val))
 
         if atomic:
             # Reparse the whole config as a text list
@@ -5428,13 +5436,13 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise InvalidParameters(error)
 
-        # exist_val MUST be a string
+        # exist_val MUST be a string or BaseCfgLine
         if isinstance(exist_val, str) is True and exist_val != "":
             pass
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(err_txt)
@@ -5451,34 +5459,10 @@ class ConfigList(MutableSequence):
             logger.error(err_txt)
             raise ValueError(err_txt)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(err_txt)
-            raise ValueError(err_txt)
-
         # Find all config lines which need to be modified... store in all_idx
-
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj._text)
-        ]
+        all_idx = self._find_insert_indexes(exist_val)
         for idx in sorted(all_idx, reverse=True):
-            self._list.insert(idx + 1, new_obj)
+            self._list.insert(idx + 1, self._build_insert_obj(new_val))
 
         if atomic is True:
             # Reparse the whole config as a text list
-- 
2.43.0


From 0fd4bf2055bec3c2a9b7384d8d410bf4fcf708ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 019/139] fix: insert_after_child() re-parses after the last
 insertion

---
 ciscoconfparse/ciscoconfparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1753dbe..99fe293 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3051,11 +3051,14 @@ class CiscoConfParse(object):
                         self.ConfigObjs.insert_after(
                             cobj,
                             insertstr,
-                            atomic=atomic,
+                            atomic=False,
                         ),
                     )
                 else:
                     pass
+
+        if atomic is True:
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
-- 
2.43.0


From fee3981967a442abb025a033b0fa563537c722ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 020/139] fix: return the result of methods wrapped by
 junos_unsupported

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8fc9724..5482ce3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -464,7 +464,7 @@ def junos_unsupported(func):
                 syntax = args[0].confobj.syntax
         if syntax == "junos":
             logger.warning(warn, UnsupportedFeatureWarning)
-        func(*args, **kwargs)
+        return func(*args, **kwargs)
 
     return wrapper
 
-- 
2.43.0


From 1fb3a73a7eef7c737b2d32c0f6c77a5eebd6f009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 021/139] fix: insert and prepend a line with factory=True

---
 ciscoconfparse/ciscoconfparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 99fe293..06f2377 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5486,7 +5486,8 @@ class ConfigList(MutableSequence):
         if getattr(val, "capitalize", False):
             if self.factory:
                 obj = config_line_factory(
-                    text=val,
+                    all_lines=self._list,
+                    line=val,
                     comment_delimiter=self.comment_delimiter,
                     syntax=self.syntax,
                 )
-- 
2.43.0


From a74f1dbee03a8f1ca921c1f7ed2afa764ec689e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 022/139] fix: delete exactly the given line and its
 descendants

---
 ciscoconfparse/ccp_abc.py | 55 ++++++++-------------------------------
 1 file changed, 11 insertions(+), 44 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 6f83750..60fafe1 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -668,53 +668,20 @@ class BaseCfgLine(metaclass=ABCMeta):
         if self.confobj.debug >= 1:
             logger.info("{}.delete(recurse={}) was called.".format(self, recurse))
 
-        # Build a set of all IOSCfgLine() object instances to be deleted...
-        delete_these = set(
-            {
-                self,
-            }
-        )
-
+        # Build a list of all IOSCfgLine() object instances to be deleted...
+        delete_these = [self]
         if recurse is True:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=True)".format(
-                        self.linenum
-                    )
-                )
-
             # NOTE - 1.5.30 changed this from iterating over self.children
             #        to self.all_children
-            for child in self.all_children:
-                delete_these.add(child)
-
-            # reverse is important here so we can delete a range of line numbers
-            # without clobbering the line numbers that haven't been deleted
-            # yet...
-            for obj in sorted(delete_these, reverse=True):
-                linenum = obj.linenum
-                if self.confobj.debug >= 1:
-                    logger.debug(
-                        "    Deleting <IOSCfgLine(line # {})>.".format(linenum)
-                    )
-                del self.confobj._list[linenum]
-
-        else:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=False)".format(
-                        self.linenum
-                    )
-                )
-            ## Consistency check to refuse deletion of the wrong object...
-            ##    only delete if the line numbers are consistent
-            text = self.text
-            linenum = self.linenum
-            assert self.confobj._list[linenum].text == text
-
-            if self.confobj.debug >= 1:
-                logger.debug("    Deleting <IOSCfgLine(line # {})>.".format(linenum))
-            del self.confobj._list[linenum]
+            delete_these.extend(self.all_children)
+
+        # Delete by object identity; line numbers are not list indexes if
+        # blank lines were ignored, or if some of these lines have already
+        # been deleted.
+        delete_ids = {id(obj) for obj in delete_these}
+        self.confobj._list[:] = [
+            obj for obj in self.confobj._list if id(obj) not in delete_ids
+        ]
 
         self.confobj.reassign_linenums()
         return True
-- 
2.43.0


From d9f3a0ddc8ff1925c0ae1ebf81bbfa265ca38294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:38 +0000
Subject: [PATCH 023/139] fix: return the deleted lines from
 delete_children_matching()

---
 ciscoconfparse/ccp_abc.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 60fafe1..15148ca 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -735,10 +735,9 @@ class BaseCfgLine(metaclass=ABCMeta):
            !
            >>>
         """
-        # if / else in a list comprehension... ref ---> https://stackoverflow.com/a/9442777/667301
-        retval = [
-            (obj.delete() if obj.re_search(linespec) else obj) for obj in self.children
-        ]
+        retval = [obj for obj in self.children if obj.re_search(linespec)]
+        for obj in retval:
+            obj.delete()
         return retval
 
     # On BaseCfgLine()
-- 
2.43.0


From 4c4ada6d20d1b9e6f3f3c02758c7868b0d88f8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 024/139] fix: honour atomic=True in replacements without
 factory

---
 ciscoconfparse/ciscoconfparse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 06f2377..df2d3df 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3223,8 +3223,8 @@ class CiscoConfParse(object):
                 continue
             retval.append(obj.re_sub(linespec, replacestr))
 
-        if self.factory and atomic:
-            self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
+        if atomic:
+            self.atomic()
 
         return retval
 
@@ -3311,8 +3311,8 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
-            self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
+        if atomic:
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
@@ -3345,8 +3345,8 @@ class CiscoConfParse(object):
                 else:
                     pass
 
-        if self.factory and atomic:
-            self.ConfigObjs._list = self.ConfigObjs.bootstrap_obj_init_ng(self.ioscfg)
+        if atomic:
+            self.atomic()
 
         return retval
 
-- 
2.43.0


From 625c8c110023c0e0f098a80dabb93ef1c51d722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:19 +0000
Subject: [PATCH 025/139] fix: replace_all_children() reaches all descendants

---
 ciscoconfparse/ciscoconfparse.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index df2d3df..d82c618 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3964,13 +3964,7 @@ class CiscoConfParse(object):
         decendants in all 'children' / 'grandchildren' / etc... after it.
         It should NOT return the children of siblings"""
         # sort the list, and get unique objects
-        retval = set(lineobject.children)
-        for candidate in lineobject.children:
-            if candidate.has_children:
-                for child in candidate.children:
-                    retval.add(child)
-        retval = sorted(retval)
-        return retval
+        return sorted(set(lineobject.all_children))
 
     # This method is on CiscoConfParse()
     @ logger.catch(reraise=True)
-- 
2.43.0


From be5f4da8e2f33ee77166be5f1389cf48696f4ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:27 +0000
Subject: [PATCH 026/139] fix: replace_all_children() replaces each line once

---
 ciscoconfparse/ciscoconfparse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index d82c618..0234c33 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3332,11 +3332,16 @@ class CiscoConfParse(object):
         childspec_re = re.compile(childspec)
         if excludespec:
             excludespec_re = re.compile(excludespec)
+        # A line may be below several matching parents; replace it only once
+        replaced_ids = set()
         for pobj in self._find_line_OBJ(parentspec, exactmatch=exactmatch):
             if excludespec and excludespec_re.search(pobj.text):
                 # Exclude replacements on pobj lines which match excludespec
                 continue
             for cobj in self._find_all_child_OBJ(pobj):
+                if id(cobj) in replaced_ids:
+                    continue
+                replaced_ids.add(id(cobj))
                 if excludespec and excludespec_re.search(cobj.text):
                     # Exclude replacements on pobj lines which match excludespec
                     continue
-- 
2.43.0


From 235e6b7741b68b40bf7a3ced36c697911ed91c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 027/139] fix: append_line() appends the given text

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 0234c33..96b4396 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3102,7 +3102,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         elif isinstance(linespec, (int, str, float)):
-            self.ConfigObjs.append(IOSCfgLine(str(linespec)))
+            self.ConfigObjs.append(IOSCfgLine(line=str(linespec)))
         elif isinstance(linespec, IOSCfgLine):
             self.ConfigObjs.append(linespec)
         else:
-- 
2.43.0


From 822b2e31d249e8049a723af357f079fc8807b09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:46 +0000
Subject: [PATCH 028/139] fix: delete all descendants after an earlier deletion

---
 ciscoconfparse/ccp_abc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 15148ca..6619373 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -669,11 +669,12 @@ class BaseCfgLine(metaclass=ABCMeta):
             logger.info("{}.delete(recurse={}) was called.".format(self, recurse))
 
         # Build a list of all IOSCfgLine() object instances to be deleted...
+        # this does not use self.all_children because a child which has
+        # already been deleted could compare equal to a renumbered child.
         delete_these = [self]
         if recurse is True:
-            # NOTE - 1.5.30 changed this from iterating over self.children
-            #        to self.all_children
-            delete_these.extend(self.all_children)
+            for obj in delete_these:
+                delete_these.extend(obj.children)
 
         # Delete by object identity; line numbers are not list indexes if
         # blank lines were ignored, or if some of these lines have already
-- 
2.43.0


From ba8310dbbb08efda3a80c3f41a13fc7c8ac65311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 029/139] fix: lines inserted by index can be edited before a
 commit

---
 ciscoconfparse/ciscoconfparse.py | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 96b4396..a0b6557 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5483,24 +5483,7 @@ class ConfigList(MutableSequence):
 
         # Coerce a string into the appropriate object
         if getattr(val, "capitalize", False):
-            if self.factory:
-                obj = config_line_factory(
-                    all_lines=self._list,
-                    line=val,
-                    comment_delimiter=self.comment_delimiter,
-                    syntax=self.syntax,
-                )
-
-            elif self.factory is False:
-                obj = CFGLINE[self.syntax](
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                )
-
-            else:
-                err_txt = 'insert() cannot insert "{}"'.format(val)
-                logger.error(err_txt)
-                raise ValueError(err_txt)
+            obj = self._build_insert_obj(val)
         else:
             err_txt = 'insert() cannot insert "{}"'.format(val)
             logger.error(err_txt)
-- 
2.43.0


From 43a342b807f4cf7496427d2d9f33a77572bc5c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:53 +0000
Subject: [PATCH 030/139] fix: HDiff() accepts CiscoConfParse() instances

---
 ciscoconfparse/ciscoconfparse.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index a0b6557..e164abd 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4287,17 +4287,23 @@ class HDiff(object):
 
         # TODO - incorporate difflib.get_close_matches() to reorder the
         #     diff (in unified format)
-        if not isinstance(self.before_config, CiscoConfParse):
-            self.parse_before = CiscoConfParse(
-                self.before_config, syntax=self.syntax,
-                ignore_blank_lines=self.ignore_blank_lines,
-            )
+        # Diff a copy of a CiscoConfParse() instance, because the diff rewrites
+        # the text of the objects which it compares...
+        before_config = self.before_config
+        if isinstance(before_config, CiscoConfParse):
+            before_config = before_config.ioscfg
+        self.parse_before = CiscoConfParse(
+            before_config, syntax=self.syntax,
+            ignore_blank_lines=self.ignore_blank_lines,
+        )
 
-        if not isinstance(self.after_config, CiscoConfParse):
-            self.parse_after = CiscoConfParse(
-                self.after_config, syntax=self.syntax,
-                ignore_blank_lines=self.ignore_blank_lines,
-            )
+        after_config = self.after_config
+        if isinstance(after_config, CiscoConfParse):
+            after_config = after_config.ioscfg
+        self.parse_after = CiscoConfParse(
+            after_config, syntax=self.syntax,
+            ignore_blank_lines=self.ignore_blank_lines,
+        )
 
     @ logger.catch(reraise=True)
     def build_diff_obj_lists(self):
-- 
2.43.0


From 95f78be4145c677c973b83e1bd77863dbd742f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:59 +0000
Subject: [PATCH 031/139] fix: HDiff() finds the parent of an added line by its
 whole diff id

---
 ciscoconfparse/ciscoconfparse.py | 37 +++++++++++---------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e164abd..f4ac12c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4805,9 +4805,9 @@ class HDiff(object):
                         )
                     )
 
-                # Calculate values associated with lines...
-                line_id_len = len(line_dict["diff_id_list"])
-                line_id_csv = ",".join([str(ii) for ii in line_dict["diff_id_list"]])
+                # The parent's diff_id_list is the line's own list, without the
+                # leading element (i.e. the _line_id of the line itself)...
+                parent_id_list = list(line_dict["diff_id_list"][1:])
 
                 # check retval and find where we should "add" the
                 # line_dict...
@@ -4824,28 +4824,17 @@ class HDiff(object):
                             )
                         )
 
-                    this_id_len = len(this_dict["diff_id_list"])
-                    this_id_csv = ",".join(
-                        [str(ii) for ii in this_dict["diff_id_list"]]
-                    )
-
-                    # if this_dict (as a string csv) is a substring of line's csv,
-                    # check whether this_dict should be line's parent...
-                    if this_id_csv in line_id_csv:
-
-                        # If the length of this_dict["diff_id_list"] is one element
-                        # longer than line_dict["diff_id_list"], it's a pretty
-                        # safe assumption that this_dict is line_dict's parent...
-                        if (this_id_len + 1) == line_id_len:
-                            if debug > 1:
-                                logger.info(
-                                    "    compress_dict_diffs() INSERT at retval[{0}] -> {1}".format(
-                                        loop_idx + 1, this_dict
-                                    )
+                    # check whether this_dict is line_dict's parent...
+                    if parent_id_list and list(this_dict["diff_id_list"]) == parent_id_list:
+                        if debug > 1:
+                            logger.info(
+                                "    compress_dict_diffs() INSERT at retval[{0}] -> {1}".format(
+                                    loop_idx + 1, this_dict
                                 )
-                            retval.insert(loop_idx + 1, line_dict)
-                            lines[diff_id_list] = len(retval) - 1
-                            break
+                            )
+                        retval.insert(loop_idx + 1, line_dict)
+                        lines[diff_id_list] = len(retval) - 1
+                        break
                 else:
                     # If there's no match above, assume we add line_dict as a
                     # completely new element at the bottom of retval
-- 
2.43.0


From 66a0bd849318d968ed03409792e631eb1c21111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:10 +0000
Subject: [PATCH 032/139] fix: Diff() accepts a missing configuration and a
 new_config file

---
 ciscoconfparse/ciscoconfparse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index f4ac12c..ad8c6ee 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -4033,7 +4033,7 @@ class Diff(object):
         # Handle old_config
         ######################################################################
         if old_config is None:
-            old_config = []
+            old_config = ""
         elif isinstance(old_config, str) and len(old_config.splitlines()) == 1 and os.path.isfile(old_config):
             # load the old config from a file as a string...
             old_config = open(old_config).read()
@@ -4050,10 +4050,10 @@ class Diff(object):
         # Handle new_config
         ######################################################################
         if new_config is None:
-            new_config = []
+            new_config = ""
         elif isinstance(new_config, str) and len(new_config.splitlines()) == 1 and os.path.isfile(new_config):
-            # load the new config from a file as a list...
-            new_config = open(new_config).read().splitlines()
+            # load the new config from a file as a string...
+            new_config = open(new_config).read()
         elif isinstance(new_config, str):
             pass
         elif isinstance(new_config, (list, tuple)):
-- 
2.43.0


From 2579f6b0dca8168003e167368be2cf083a0219b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:19 +0000
Subject: [PATCH 033/139] fix: req_cfgspec_all_diff(ignore_ws=True) compares
 the lines literally

---
 ciscoconfparse/ciscoconfparse.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index ad8c6ee..ad4b240 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3532,11 +3532,6 @@ class CiscoConfParse(object):
         deprecation_warn_str = "`req_cfgspec_all_diff()` will be deprecated and removed in future versions."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
 
-        rgx = dict()
-        if ignore_ws is True:
-            for line in cfgspec:
-                rgx[line] = build_space_tolerant_regex(line)
-
         skip_cfgspec = dict()
         retval = list()
         matches = self._find_line_OBJ("[a-zA-Z]")
@@ -3544,10 +3539,7 @@ class CiscoConfParse(object):
         for lineobj in matches:
             for reqline in cfgspec:
                 if ignore_ws:
-                    if re.search(
-                        r"^" + rgx[reqline] + "$",
-                        lineobj.text.strip(),
-                    ):
+                    if lineobj.text.split() == reqline.split():
                         skip_cfgspec[reqline] = True
                 else:
                     if lineobj.text.strip() == reqline.strip():
-- 
2.43.0


From f7e2f4ad53c49475260550739bcc3536bc1b5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:26 +0000
Subject: [PATCH 034/139] fix: req_cfgspec_excl_diff() negates and indents
 removed lines correctly

---
 ciscoconfparse/ccp_abc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 6619373..efcaa19 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -606,12 +606,15 @@ class BaseCfgLine(metaclass=ABCMeta):
         # adding a deprecation warning in version 1.7.0...
         deprecation_warn_str = "add_uncfgtext() is deprecated and will be removed."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
-        ## remove any preceeding "no " from Cisco IOS commands...
-        conftext = re.sub(r"^(\s*)(no\s+)(\S.*)?$", "\3", unconftext)
-        myindent = self.parent.child_indent
+        conftext = unconftext.strip()
+        if re.search(r"^no\s+\S", conftext):
+            ## remove any preceeding "no " from Cisco IOS commands...
+            conftext = re.sub(r"^no\s+", "", conftext)
+        else:
+            conftext = "no " + conftext
 
         # write access to self.uncfgtext is not supported
-        self._uncfgtext_to_be_deprecated = myindent * " " + "no " + conftext
+        self._uncfgtext_to_be_deprecated = self.indent * " " + conftext
 
     @property
     def uncfgtext(self):
-- 
2.43.0


From 8bd6114cd0eecb43fd4df4739da307afe6d75fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:35 +0000
Subject: [PATCH 035/139] fix: fix_repeated_words() handles a one-character
 command

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 5482ce3..c64fa6e 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -528,7 +528,7 @@ def fix_repeated_words(cmd="", word=""):
         raise RequirementFailure()
     while True:
         # look at the command and fix the repeated words in it...
-        rgx = rf"^(?P<indent>\s*){word.strip()}\s+{word.strip()}\s+(?P<remaining_cmd>\S.+)$"
+        rgx = rf"^(?P<indent>\s*){word.strip()}\s+{word.strip()}\s+(?P<remaining_cmd>\S.*)$"
         mm = re.search(rgx, cmd)
         if mm is not None:
             # We found a repeated word in the command...
-- 
2.43.0


From 7f1c6dd5ed56f850558b6d19a1a2c91baab61f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:47 +0000
Subject: [PATCH 036/139] fix: IPv6Obj() rejects text which is not an IPv6
 address

---
 ciscoconfparse/ccp_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index c64fa6e..a8edcfb 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1867,7 +1867,11 @@ class IPv6Obj(object):
             else:
                 raise NotImplementedError(v6addr_prefixlen.strip())
 
-            v6_str_rgx = _RGX_IPV6ADDR.search(v6addr_prefixlen.strip())
+            v6_str_rgx = _RGX_IPV6ADDR.fullmatch(v6addr_prefixlen.strip())
+            if v6_str_rgx is None or v6addr_prefixlen.count("/") > 1:
+                raise AddressValueError(
+                    f"Could not parse '{v6addr_prefixlen}' {type(v6addr_prefixlen)} into an IPv6 Address"
+                )
             # Example 'v6_groupdict'
             #     v6_groupdict = {'addr': '2b00:cd80:14:10::1', 'opt1': None, 'opt2': None, 'opt3': None, 'opt4': None, 'opt5': '2b00:cd80:14:10::1', 'opt6': None, 'opt7': None, 'opt8': None, 'opt9': None, 'opt10': None, 'masklen': '64'}
             v6_groupdict = v6_str_rgx.groupdict()
-- 
2.43.0


From a1259ad9d69fb41c5bd0d30ba80312cb528528d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:54 +0000
Subject: [PATCH 037/139] fix: IPv6Obj() accepts the longest IPv4-embedded
 spelling

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index a8edcfb..8172414 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -80,7 +80,7 @@ IPV4_MAXINT = 4294967295
 # Maximum ipv6 as an integer
 IPV6_MAXINT = 340282366920938463463374607431768211455
 IPV4_MAXSTR_LEN = 31  # String length with periods, slash, and netmask
-IPV6_MAXSTR_LEN = 39 + 4  # String length with colons, slash and masklen
+IPV6_MAXSTR_LEN = 45 + 4  # String length with colons, embedded ipv4, slash and masklen
 
 IPV4_MAX_PREFIXLEN = 32
 IPV6_MAX_PREFIXLEN = 128
-- 
2.43.0


From 39df696a0d7652be38db2c63b421d4b1b6c5ece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:10 +0000
Subject: [PATCH 038/139] fix: IPv4Obj() and IPv6Obj() honour strict

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8172414..e36da74 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1060,7 +1060,7 @@ class IPv4Obj(object):
             mask_prefixlen = f"{netmask}{prefixlen}"
             if re.search(r"\d+\.\d+\.\d+\.\d+", v4addr):
                 self.ip_object = IPv4Address(v4addr)
-                self.network_object = IPv4Network(f"{v4addr}/{mask_prefixlen}", strict=False)
+                self.network_object = IPv4Network(f"{v4addr}/{mask_prefixlen}", strict=bool(strict))
                 self.prefixlen = self.network_object.prefixlen
             elif v4addr == "dhcp":
                 raise DynamicAddressException("Cannot parse address from a DHCP string.")
@@ -1892,7 +1892,7 @@ class IPv6Obj(object):
             #    netstr = ipv6 + "/" + v6_groupdict["netmask"]
             else:
                 netstr = _ipv6 + "/128"
-            self.network_object = IPv6Network(netstr, strict=False)
+            self.network_object = IPv6Network(netstr, strict=bool(strict))
 
         elif isinstance(v6addr_prefixlen, int):
             if not (0 <= v6addr_prefixlen <= IPV6_MAXINT):
-- 
2.43.0


From adee6b26968f95b76c48f51021b0ca60624628fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:43 +0000
Subject: [PATCH 039/139] fix: IPv4 and IPv6 addresses are never equal; empty
 IPv6Obj() hashes

---
 ciscoconfparse/ccp_util.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index e36da74..68e1377 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1185,6 +1185,10 @@ class IPv4Obj(object):
                     except RequirementFailure:
                         return False
 
+            # An IPv4 address is never equal to an IPv6 address...
+            if getattr(val, "version", 4) != 4:
+                return False
+
             # Compare objects numerically...
             if self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
                 return True
@@ -1930,6 +1934,10 @@ class IPv6Obj(object):
                     if getattr(obj, attr_name, None) is None:
                         return False
 
+            # An IPv6 address is never equal to an IPv4 address...
+            if getattr(val, "version", 6) != 6:
+                return False
+
             # Compare objects numerically...
             if self.as_decimal == val.as_decimal and self.prefixlen == val.prefixlen:
                 return True
@@ -2072,6 +2080,8 @@ class IPv6Obj(object):
     # On IPv6Obj()
     def __hash__(self):
         # Python3 needs __hash__()
+        if self.empty is True:
+            return hash(None)
         return hash(str(self.ip_object)) + hash(str(self.prefixlen))
 
     # On IPv6Obj()
-- 
2.43.0


From e954dd88e273aac4da2217f3a0a9bb784c8a6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:49 +0000
Subject: [PATCH 040/139] fix: IPv6 containment covers the last addresses of a
 network

---
 ciscoconfparse/ccp_util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 68e1377..7485a1c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1344,7 +1344,9 @@ class IPv4Obj(object):
 
         # For all other cases, see below...
         try:
-            if self.network_object.prefixlen == 0:
+            if self.version != val.version:
+                return False
+            elif self.network_object.prefixlen == 0:
                 return True
             elif self.network_object.prefixlen > val.network_object.prefixlen:
                 # obvious shortcut... if this object's mask is longer than
@@ -2062,7 +2064,9 @@ class IPv6Obj(object):
     def __contains__(self, val):
         # Used for "foo in bar"... python calls bar.__contains__(foo)
         try:
-            if self.network_object.prefixlen == 0:
+            if self.version != val.version:
+                return False
+            elif self.network_object.prefixlen == 0:
                 return True
             elif self.network_object.prefixlen > val.network_object.prefixlen:
                 # obvious shortcut... if this object's mask is longer than
@@ -2071,7 +2075,7 @@ class IPv6Obj(object):
             else:
                 # NOTE: We cannot use the same algorithm as IPv4Obj.__contains__() b/c IPv6Obj has no broadcast
                 comparison_01 = (self.as_decimal_network <= val.as_decimal_network)
-                comparison_02 = (self.as_decimal_network + self.numhosts - 1) >= (val.as_decimal_network + val.numhosts - 1)
+                comparison_02 = self.as_decimal_network_maxint >= val.as_decimal_network_maxint
                 return comparison_01 and comparison_02
 
         except BaseException as eee:
-- 
2.43.0


From 76009ca8da96bf006c9c90ea2aa1367a0cfb5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 041/139] fix: subtraction can give the last address

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 7485a1c..3d16dfd 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1325,7 +1325,7 @@ class IPv4Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV4_MAXINT:
+        if total > IPV4_MAXINT:
             raise RequirementFailure("Max IPv4 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv4 integer exceeded")
@@ -2052,7 +2052,7 @@ class IPv6Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV6_MAXINT:
+        if total > IPV6_MAXINT:
             raise RequirementFailure("Max IPv6 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv6 integer exceeded")
-- 
2.43.0


From 69cfb764373817d4574ba1c5fa87601e261fe20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:03 +0000
Subject: [PATCH 042/139] fix: network_offset covers exactly the addresses of
 the network

---
 ciscoconfparse/ccp_util.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 3d16dfd..91d31e7 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -983,7 +983,7 @@ class IPv4Obj(object):
         network : :class:`ipaddress.IPv4Network`
             Returns an :class:`ipaddress.IPv4Network` with the network of this object
         network_offset : int
-            Returns the integer difference between host number and network number.  This must be less than `numhosts`
+            Returns the integer difference between host number and network number.
         network_object : :class:`ipaddress.IPv4Network`
             Returns an :class:`ipaddress.IPv4Network` with the network of this object
         numhosts : int
@@ -1559,11 +1559,8 @@ class IPv4Obj(object):
     # On IPv4Obj()
     @property
     def network_offset(self):
-        """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
-        offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
-        return offset
+        """Returns the integer difference between host number and network number."""
+        return self.as_decimal - self.as_decimal_network
 
     # do NOT wrap with @logger.catch(...)
     # On IPv4Obj()
@@ -1586,7 +1583,7 @@ class IPv4Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_broadcast - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv4Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
@@ -1817,7 +1814,7 @@ class IPv6Obj(object):
         netmask : :class:`ipaddress.IPv6Address`
             An :class:`ipaddress.IPv6Address` object containing the netmask
         network_offset : int
-            Returns the integer difference between host number and network number.  This must be less than `numhosts`
+            Returns the integer difference between host number and network number.
         numhosts : int
             An integer representing the number of host addresses contained in the network
         prefixlen : int
@@ -2251,11 +2248,8 @@ class IPv6Obj(object):
     # On IPv6Obj()
     @property
     def network_offset(self):
-        """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
-        offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
-        return offset
+        """Returns the integer difference between host number and network number."""
+        return self.as_decimal - self.as_decimal_network
 
     # do NOT wrap with @logger.catch(...)
     # On IPv6Obj()
@@ -2278,7 +2272,7 @@ class IPv6Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_network_maxint - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv6Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
-- 
2.43.0


From 06361c53e038f3ff9d87a028294c72309fb63dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:11 +0000
Subject: [PATCH 043/139] fix: IPv6Obj().teredo and IPv6Obj().sixtofour

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 91d31e7..0e44b9a 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2433,12 +2433,12 @@ class IPv6Obj(object):
     # On IPv6Obj()
     @property
     def teredo(self):
-        return self.network_object.teredo
+        return self.ip_object.teredo
 
     # On IPv6Obj()
     @property
     def sixtofour(self):
-        return self.network_object.sixtofour
+        return self.ip_object.sixtofour
 
 
 class L4Object(object):
-- 
2.43.0


From d0b5eabf84b09514174090d11d6ad798b12cf57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 044/139] fix: check_valid_ipaddress() accepts IPv6 addresses

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 0e44b9a..d8b62eb 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2918,7 +2918,7 @@ def check_valid_ipaddress(input_addr=None):
         IPv4Obj(input_addr)
         ipaddr_family = 4
     except BaseException:
-        raise ValueError(input_addr)
+        pass
 
     if ipaddr_family == 0:
         try:
-- 
2.43.0


From a39c4adcb66db6a3f6ea80e8964937626b258f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:08 +0000
Subject: [PATCH 045/139] fix: parse digits in an interface prefix, reject
 malformed interface names

---
 ciscoconfparse/ccp_util.py     | 10 ++++++++--
 ciscoconfparse/models_cisco.py |  2 +-
 ciscoconfparse/models_nxos.py  |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index d8b62eb..6efc9ef 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3191,8 +3191,14 @@ class CiscoIOSInterface(object):
             logger.critical(error)
             raise InvalidCiscoInterface(error)
 
-        re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
-        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>[\d\:\.\/^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
+        # Reject anything except 'prefix slot/card/port.subinterface:channel interface_class'...
+        if not re.search(r"^(?:[a-zA-Z\-\s]*(?:\d+[a-zA-Z][a-zA-Z\-\s]*)?)(?:\d+\/){0,2}\d+(?:\.\d+)?(?:\:\d+)?(?:\s+[a-zA-Z\-]+)?$", interface_name.strip()):
+            error = f"The interface_name: string '{interface_name.strip()}' could not be parsed."
+            logger.critical(error)
+            raise InvalidCiscoInterface(error)
+
+        re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*(?:\d+[a-zA-Z][a-zA-Z\-\s]*)?)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
+        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*(?:\d+[a-zA-Z][a-zA-Z\-\s]*)?)(?P<slot_card_port_subinterface_channel>[\d\:\.\/^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
         re_any = re.search(r".*", interface_name.strip())
         if isinstance(re_intf_short, re.Match):
 
diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c112094..1b452c7 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -998,7 +998,7 @@ class BaseIOSIntfLine(IOSCfgLine):
             error = f"`{self.text}` is not a valid Cisco interface"
             logger.error(error)
             raise InvalidCiscoInterface(error)
-        return CiscoIOSInterface("".join(self.text.split()[1:]))
+        return CiscoIOSInterface(" ".join(self.text.split()[1:]))
 
     # This method is on BaseIOSIntfLine()
     @property
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1f67686..c6d0b17 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -404,7 +404,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             error = "`{self.text}` is not a valid Cisco interface"
             logger.error(error)
             raise InvalidCiscoInterface(error)
-        return CiscoIOSInterface("".join(self.text.split()[1:]))
+        return CiscoIOSInterface(" ".join(self.text.split()[1:]))
 
     @property
     def name(self):
-- 
2.43.0


From 698e3d694d12c6fceaa67d88a95c290029c0617c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:45 +0000
Subject: [PATCH 046/139] fix: order interfaces of different shapes, hash and
 render all components

---
 ciscoconfparse/ccp_util.py | 41 ++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 6efc9ef..c1fdf43 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3513,24 +3513,20 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
-            return True
-        return False
+        return self.sort_key > other.sort_key
 
     # This method is on CiscoIOSInterface()
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
-            return True
-        return False
+        return self.sort_key < other.sort_key
 
     # This method is on CiscoIOSInterface()
     @logger.catch(reraise=True)
     def __hash__(self):
         """Build a unique (and sortable) identifier based solely on slot / card / port / subinterface / channel numbers for the object instance"""
         # I am using __hash__() in __gt__() and __lt__()
-        return sum([(idx + 1)**ii for idx, ii in enumerate(self.sort_list) if isinstance(ii, int)])
+        return hash(tuple(self.sort_list))
 
     # This method is on CiscoIOSInterface()
     @logger.catch(reraise=True)
@@ -3671,20 +3667,12 @@ class CiscoIOSInterface(object):
         else:
             _interface_class = f" {self.interface_class.strip()}"
 
-        if isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and isinstance(self.channel, (int, str)):
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}:{self.channel}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.port}{_interface_class}"
-        elif self.slot is None and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.port}{_interface_class}"
-        else:
-            error = "Could not construct a return value for CiscoIOSInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
-            logger.error(error)
-            raise ValueError(error)
+        retval = self.number
+        if self.subinterface is not None:
+            retval += f".{self.subinterface}"
+        if self.channel is not None:
+            retval += f":{self.channel}"
+        return f"{retval}{_interface_class}"
 
     # This method is on CiscoIOSInterface()
     @property
@@ -3825,6 +3813,12 @@ class CiscoIOSInterface(object):
         "Return the sort_list"
         return self.update_sort_list()
 
+    # This method is on CiscoIOSInterface()
+    @property
+    def sort_key(self):
+        """A version of sort_list which is always comparable; an absent component sorts first."""
+        return [(ii is not None, ii) for ii in self.sort_list]
+
     # This method is on CiscoIOSInterface()
     @sort_list.setter
     @logger.catch(reraise=True)
@@ -5262,7 +5256,10 @@ class CiscoRange(MutableSequence):
                 if isinstance(target_list, list):
                     if isinstance(target_list[0], (CiscoIOSInterface, CiscoIOSXRInterface)):
                         # Sort CiscoIOSInterface() or CiscoIOSXRInterface members
-                        new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
+                        if attribute == "sort_list" and isinstance(target_list[0], CiscoIOSInterface):
+                            new_list = sorted(target_list, reverse=reverse)
+                        else:
+                            new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
                     elif isinstance(target_list[0], (int, float)):
                         # Sort int or float members
                         new_list = sorted(target_list, reverse=reverse)
-- 
2.43.0


From 2d97218a562781ad3d771ba6ffb246e46f82dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:21 +0000
Subject: [PATCH 047/139] fix: CiscoRange expansion of full names,
 sub-interfaces, channels, hyphenated names; reversed ranges; setitem and
 append errors

---
 ciscoconfparse/ccp_util.py | 275 ++++++++-----------------------------
 1 file changed, 59 insertions(+), 216 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index c1fdf43..0d5de50 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4834,7 +4834,10 @@ class CiscoRange(MutableSequence):
                     # Append a whole range of interfaces...
                     begin_ordinal = int(_csv_part.split("-")[0].strip())
                     end_ordinal = int(_csv_part.split("-")[1].strip())
-                    end_ordinal = int("".join(filter(str.isdigit, _csv_part.split("-")[1].strip())))
+                    if end_ordinal < begin_ordinal:
+                        error = f"{_csv_part} is not a valid range; it ends before it begins"
+                        logger.error(error)
+                        raise InvalidCiscoRange(error)
                     if debug is True:
                         logger.info(f"CiscoRange(text={text}, debug=True) : end_ordinal={end_ordinal}")
                 else:
@@ -4867,7 +4870,7 @@ class CiscoRange(MutableSequence):
                 continue
 
         # De-duplicate the list of integers and return it...
-        return list(set([int(ii) for ii in integers]))
+        return sorted(set([int(ii) for ii in integers]))
 
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
@@ -4896,229 +4899,67 @@ class CiscoRange(MutableSequence):
             # Default to CiscoIOSInterface for **everything else**
             _result_type = CiscoIOSInterface
 
+        ######################################################################
+        # An interface class at the end of the range applies to all interfaces:
+        #   'multipoint' in 'Serial1/0-5,7 multipoint'
+        ######################################################################
+        _range_class = None
+        if len(text.split()) > 1 and "".join(filter(str.isdigit, text.split()[-1])) == '':
+            _range_class = text.split()[-1]
+
         for idx, _csv_part in enumerate(csv_parts):
 
-            if debug is True:
-                logger.info(f"    CiscoRange() idx: {idx} for --> _csv_part: {_csv_part} <--")
+            # Split a part like 'Eth1/2-4 multipoint' into 'Eth1/2', '4' and 'multipoint'
+            re_part = re.search(r"^(?P<begin>.*?\d)(?:\s*-\s*(?P<end>\d+))?(?P<interface_class>\s+[a-zA-Z\-]+)?$", _csv_part.strip())
+            if re_part is None:
+                error = f"Could not divide {_csv_part} into interface components"
+                logger.critical(error)
+                raise InvalidCiscoRange(error)
 
             ##################################################################
-            # Build base instances of begin_obj and this_obj
+            # Build this_obj, the first interface of this part.  A part which
+            #     is only a number is relative to the last interface name.
             ##################################################################
-            if idx == 0:
-                # Set the begin_obj...
-                begin_obj = _result_type(_csv_part.split("-")[0])
-                self.begin_obj = begin_obj
-                self.this_obj = _result_type(interface_dict=begin_obj.as_dict(), debug=debug)
-                intf_dict = begin_obj.as_dict()
-
-                ##############################################################
-                # Manually add interface class because begin_obj won't see
-                #   it by default: 'multipoint' in 'Serial1/0-5 multipoint'
-                ##############################################################
-                if "".join(filter(str.isdigit, text.split()[-1])) == '':
-                    # if there are no digits in the last word, that's an
-                    # interface_class...
-                    _interface_class = text.split()[-1]
-                else:
-                    _interface_class = None
-                # Rebuild begin_obj with the interface_class
-                if isinstance(_interface_class, str):
-                    intf_dict["interface_class"] = _interface_class
-                    begin_obj = _result_type(interface_dict=intf_dict)
-                    self.begin_obj = begin_obj
+            if idx > 0 and re.search(r"^\d+$", re_part.group("begin")):
+                self.this_obj = copy.copy(self.this_obj)
+                setattr(self.this_obj, iterate_attribute, int(re_part.group("begin")))
+            else:
+                self.this_obj = _result_type(re_part.group("begin"), debug=debug)
+                self.this_obj.interface_class = _range_class
+                # Walk all possible attributes to find which attribute
+                #     we're iterating on...
+                iterate_attribute = self.default_iter_attr
+                for potential_iter_attr in ['channel', 'subinterface', 'port', 'card', 'slot']:
+                    if isinstance(getattr(self.this_obj, potential_iter_attr), int):
+                        iterate_attribute = potential_iter_attr
+                        break
 
-            ##################################################################
-            # this_obj will also be modified in the large per
-            #     attribute if-clauses, below
-            ##################################################################
-            # WAS DEEPCOPY
-            self.this_obj = copy.deepcopy(begin_obj)
+            if re_part.group("interface_class") is not None:
+                self.this_obj.interface_class = re_part.group("interface_class")
 
-            ##################################################################
-            # Walk all possible attributes to find which target_attribute
-            #     we're iterating on...
-            ##################################################################
-            for potential_iter_attr in ['channel', 'subinterface', 'port', 'card', 'slot']:
-                if isinstance(getattr(begin_obj, potential_iter_attr), int):
-                    self.iterate_attribute = potential_iter_attr
-                    break
+            if idx == 0:
+                self.begin_obj = self.this_obj
+                self.iterate_attribute = iterate_attribute
 
-            if self.iterate_attribute is None:
-                if debug is True:
-                    logger.warning(f"CiscoRange() set `iterate_attribute` to the default of {self.default_iter_attr}")
-                self.iterate_attribute = self.default_iter_attr
-
-            if idx > 0:
-                if self.iterate_attribute == 'channel' and isinstance(begin_obj.channel, int):
-                    self.this_obj.channel = _result_type(_csv_part.split("-")[0].strip(), debug=debug).channel
-                elif self.iterate_attribute == 'subinterface' and isinstance(begin_obj.subinterface, int):
-                    self.this_obj.subinterface = _result_type(_csv_part.split("-")[0].strip(), debug=debug).subinterface
-                elif self.iterate_attribute == 'port' and isinstance(begin_obj.port, int):
-                    self.this_obj.port = _result_type(_csv_part.split("-")[0].strip(), debug=debug).port
-                elif self.iterate_attribute == 'card' and isinstance(begin_obj.card, int):
-                    self.this_obj.card = _result_type(_csv_part.split("-")[0].strip(), debug=debug).card
-                elif self.iterate_attribute == 'slot' and isinstance(begin_obj.card, int):
-                    self.this_obj.slot = _result_type(_csv_part.split("-")[0].strip(), debug=debug).slot
-                else:
-                    raise NotImplementedError()
+            if debug is True:
+                logger.info(f"CiscoRange() is iterating on {iterate_attribute} of {self.this_obj}")
 
             ##################################################################
-            #
-            # Handle attribute incrementing below
-            #
-            # Walk backwards in .sort_list to find the most-specific value
-            #
+            # Increment the iterate_attribute from begin_ordinal to end_ordinal
             ##################################################################
-            if debug is True:
-                logger.info(f"    CiscoRange(text={text}, debug=True) _csv_part: {_csv_part}")
-                logger.info(f"    CiscoRange(text={text}, debug=True)     iterate_attribute: {self.iterate_attribute}")
-                logger.debug(f"    CiscoRange(text={text}, debug=True)     begin_obj: {begin_obj}{os.linesep}")
-                logger.debug(f"    CiscoRange(text={text}, debug=True)     this_obj: {self.this_obj}")
-
-            # Set the end_ordinal... keep this separate from begin_obj logic...
-            if self.iterate_attribute is None:
-                raise ValueError()
-            if "-" in _csv_part:
-                if len(_csv_part.split("-")) == 2:
-                    # Append a whole range of interfaces...
-                    obj = _result_type(_csv_part.split("-")[0].strip(), debug=debug)
-                    begin_ordinal = getattr(obj, self.iterate_attribute)
-                    # parse end_ordinal from 'Eth1/2-4 multipoint'
-                    #     ref: https://stackoverflow.com/a/1450900
-                    end_ordinal = int("".join(filter(str.isdigit, _csv_part.split("-")[1].strip())))
-                    if debug is True:
-                        logger.info(f"CiscoRange(text={text}, debug=True) : end_ordinal={end_ordinal}")
-                else:
-                    error = f"Could not divide {_csv_part} into interface components"
-                    logger.error(error)
-                    raise InvalidCiscoRange(error)
+            begin_ordinal = getattr(self.this_obj, iterate_attribute)
+            if re_part.group("end") is not None:
+                end_ordinal = int(re_part.group("end"))
             else:
-                end_ordinal = None
-                if debug is True:
-                    logger.info(f"CiscoRange(text={text}, debug=True) : end_ordinal={end_ordinal}")
-
-            if debug is True:
-                logger.debug(f"    CiscoRange(text={text}, debug=True) [begin_obj: {type(self.begin_obj)}]    end_ordinal: {end_ordinal}")
-
-            if self.iterate_attribute == 'channel' and isinstance(begin_obj.channel, int):
-                ##############################################################
-                # Handle incrementing channel numbers
-                ##############################################################
-                if end_ordinal is not None:
-                    iter_dict = self.this_obj.as_dict()
-                    for ii in range(begin_ordinal, end_ordinal + 1):
-                        if debug is True:
-                            logger.debug(f"    idx: {idx} at point01,     set channel: {ii}")
-                        iter_dict["channel"] = ii
-                        # Use deepcopy to avoid problems with the same object
-                        #     instance appended multiple times
-                        if debug is True:
-                            logger.info(f"    idx: {idx} at point02, Appending {self.this_obj}{os.linesep}")
-                        # WAS DEEPCOPY
-                        expanded_interfaces.append(self.this_obj.from_dict(iter_dict))
-                        continue
-                else:
-                    # Append a single interface
-                    if debug is True:
-                        logger.info(f"    idx: {idx} at point03, Appending {self.this_obj}{os.linesep}")
-                    # WAS DEEPCOPY
-                    expanded_interfaces.append(copy.deepcopy(self.this_obj))
-                    continue
-            elif self.iterate_attribute == 'subinterface' and isinstance(begin_obj.subinterface, int):
-                ##############################################################
-                # Handle incrementing subinterface numbers
-                ##############################################################
-                if end_ordinal is not None:
-                    iter_dict = self.this_obj.as_dict()
-                    for ii in range(begin_ordinal, end_ordinal + 1):
-                        if debug is True:
-                            logger.debug(f"    idx: {idx} at point04,     set subinterface: {ii}")
-                        iter_dict["subinterface"] = ii
-                        # Use deepcopy to avoid problems with the same object
-                        #     instance appended multiple times
-                        if debug is True:
-                            logger.info(f"    idx: {idx} at point05, Appending {self.this_obj}{os.linesep}")
-                        expanded_interfaces.append(self.this_obj.from_dict(iter_dict))
-                        continue
-                else:
-                    # Append a single interface
-                    if debug is True:
-                        logger.info(f"    idx: {idx} at point06, Appending {self.this_obj}{os.linesep}")
-                    expanded_interfaces.append(self.this_obj)
-                    continue
-            elif self.iterate_attribute == 'port' and isinstance(begin_obj.port, int):
-                ##############################################################
-                # Handle incrementing port numbers
-                ##############################################################
-                if end_ordinal is not None:
-                    iter_dict = self.this_obj.as_dict()
-                    for ii in range(begin_ordinal, end_ordinal + 1):
-                        if debug is True:
-                            logger.debug(f"    idx: {idx} at point07,     set subinterface: {ii}")
-                        iter_dict["port"] = ii
-                        # Use deepcopy to avoid problems with the same object
-                        #     instance appended multiple times
-                        if debug is True:
-                            logger.info(f"    idx: {idx} at point08, Appending {self.this_obj}{os.linesep}")
-                        expanded_interfaces.append(self.this_obj.from_dict(iter_dict))
-                        continue
-                else:
-                    # Append a single interface
-                    if debug is True:
-                        logger.info(f"    idx: {idx} at point09, Appending {self.this_obj}{os.linesep}")
-                    expanded_interfaces.append(self.this_obj)
-                    continue
-
-            elif self.iterate_attribute == 'card' and isinstance(begin_obj.card, int):
-                ##############################################################
-                # Handle incrementing port numbers
-                ##############################################################
-                if end_ordinal is not None:
-                    iter_dict = self.this_obj.as_dict()
-                    for ii in range(begin_ordinal, end_ordinal + 1):
-                        if debug is True:
-                            logger.debug(f"    idx: {idx} at point10,     set subinterface: {ii}")
-                        iter_dict["card"] = ii
-                        # Use deepcopy to avoid problems with the same object
-                        #     instance appended multiple times
-                        if debug is True:
-                            logger.info(f"    idx: {idx} at point11, Appending {self.this_obj}{os.linesep}")
-                        expanded_interfaces.append(self.this_obj.from_dict(iter_dict))
-                        continue
-                else:
-                    # Append a single interface
-                    if debug is True:
-                        logger.info(f"    idx: {idx} at point12, Appending {self.this_obj}{os.linesep}")
-                    expanded_interfaces.append(self.this_obj)
-                    continue
-
-            elif self.iterate_attribute == 'slot' and isinstance(begin_obj.slot, int):
-                ##############################################################
-                # Handle incrementing port numbers
-                ##############################################################
-                if end_ordinal is not None:
-                    iter_dict = self.this_obj.as_dict()
-                    for ii in range(begin_ordinal, end_ordinal + 1):
-                        if debug is True:
-                            logger.debug(f"    idx: {idx} at point13,     set subinterface: {ii}")
-                        iter_dict["slot"] = ii
-                        # Use deepcopy to avoid problems with the same object
-                        #     instance appended multiple times
-                        if debug is True:
-                            logger.info(f"    idx: {idx} at point14, Appending {self.this_obj}{os.linesep}")
-                        expanded_interfaces.append(self.this_obj.from_dict(iter_dict))
-                        continue
-                else:
-                    # Append a single interface
-                    if debug is True:
-                        logger.info(f"    idx: {idx} at point15, Appending {self.this_obj}{os.linesep}")
-                    expanded_interfaces.append(self.this_obj)
-                    continue
-
-            else:
-                error = f"Cannot determine CiscoRange().iterate_attribute.  We thought it was --> {self.iterate_attribute} <--"
+                end_ordinal = begin_ordinal
+            if end_ordinal < begin_ordinal:
+                error = f"{_csv_part} is not a valid range; it ends before it begins"
                 logger.critical(error)
                 raise InvalidCiscoRange(error)
+            for ii in range(begin_ordinal, end_ordinal + 1):
+                obj = copy.copy(self.this_obj)
+                setattr(obj, iterate_attribute, ii)
+                expanded_interfaces.append(obj)
 
         ######################################################################
         # Sort _expanded_interfaces...
@@ -5130,7 +4971,7 @@ class CiscoRange(MutableSequence):
 
         # De-deplicate _expanded_interfaces...
         _expanded_interfaces = expanded_interfaces
-        _expanded_interfaces = list(set(_expanded_interfaces))
+        _expanded_interfaces = list(dict.fromkeys(_expanded_interfaces))
         if False:
             retval = sorted(_expanded_interfaces, key=lambda x: x.sort_list, reverse=self.reverse)
         retval = self.attribute_sort(_expanded_interfaces, attribute="sort_list", reverse=False)
@@ -5213,7 +5054,7 @@ class CiscoRange(MutableSequence):
             logger.critical(error)
             raise IndexError(error)
         else:
-            return self._list[ii]
+            self._list[ii] = val
 
     def __add__(self, other):
         if isinstance(other, CiscoRange):
@@ -5303,6 +5144,9 @@ class CiscoRange(MutableSequence):
             error = f'Requested to append {val} {type(val)}; however, CiscoRange() already contains {val}'
             logger.error(error)
             raise DuplicateMember(error)
+        elif val in self._list:
+            logger.debug(f"CiscoRange().append({val}) was skipped because {val} already exists in this CiscoRange()")
+            return self
 
         # WAS DEEPCOPY
         new_list = copy.deepcopy(self._list)
@@ -5321,10 +5165,9 @@ class CiscoRange(MutableSequence):
             else:
                 retval = new_list
             self._list = retval
-        except DuplicateMember:
-            if ignore_errors is True:
-                logger.debug(f"CiscoRange().append({val}) was skipped because {val} already exists in this CiscoRange()")
         except Exception as eee:
+            if ignore_errors is False:
+                raise
             logger.warning(f"CiscoRange().append({val}) was skipped because of an error: {eee}")
 
         return self
-- 
2.43.0


From 2aa65df2e916d50cdc5a5958dba6123ef7106fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:41 +0000
Subject: [PATCH 048/139] fix: CiscoRange as_list, as_set, remove, compression
 of interfaces; add and sub return new ranges

---
 ciscoconfparse/ccp_util.py | 166 ++++++++++++++-----------------------
 1 file changed, 61 insertions(+), 105 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 0d5de50..4645fd3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4984,7 +4984,7 @@ class CiscoRange(MutableSequence):
     def __hash__(self):
         """Return a deterministic identifier for CiscoRange() implementations"""
         if len(self._list) == 0:
-            return hash(self._list)
+            return hash(tuple(self._list))
         else:
             return hash(str(self._list)) * hash(self.member_type)
 
@@ -5058,9 +5058,9 @@ class CiscoRange(MutableSequence):
 
     def __add__(self, other):
         if isinstance(other, CiscoRange):
-            self._list.extend(other._list)
-            self._list = sorted(set(self._list))
-            return self
+            retval = copy.copy(self)
+            retval._list = sorted(set(self._list + other._list))
+            return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
             logger.error(error)
@@ -5068,13 +5068,9 @@ class CiscoRange(MutableSequence):
 
     def __sub__(self, other):
         if isinstance(other, CiscoRange):
-            for ii in other._list:
-                try:
-                    self._list.remove(ii)
-                except ValueError:
-                    # Skip the item if it does not exist...
-                    pass
-            return self
+            retval = copy.copy(self)
+            retval._list = [ii for ii in self._list if ii not in other._list]
+            return retval
         else:
             error = f'`{other}` must be a CiscoRange() instance; the received argument was {type(other)} instead of a CiscoRange()'
             logger.error(error)
@@ -5181,67 +5177,29 @@ class CiscoRange(MutableSequence):
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
     def remove(self, arg, ignore_errors=False, debug=False):
-        length_before = len(self._list)
-        # WAS DEEPCOPY
-        list_before = copy.deepcopy(self._list)
-
-        # Ignore absent arg if ignore_errors is True
-        if arg not in self._list and ignore_errors is True:
-            new_list = self._list
-            if len(self._list) > 0:
-                result_type = type(self._list[0])
-            else:
-                result_type = self.result_type
-
-        elif len(self._list) > 0:
+        if len(self._list) == 0:
+            if ignore_errors is not True:
+                error = "CiscoRange().remove() cannot remove from an empty CiscoRange()"
+                logger.critical(error)
+                raise InvalidMember(error)
+            return self
 
-            # Try removing some common result types...
-            for result_type in [None, int, str, float, 0]:
-                if len(self._list) > 0 and result_type is not type(self._list[0]):
-                    # Skip this result_type...
-                    continue
-                elif result_type == 0:
-                    # Explicitly handle inability to detect type dynamically...
-                    error = f"CiscoRange().remove({arg}) arg type: {type(arg)} does not match type: {self.member_type} of this CiscoRange(): {self}"
-                    logger.error(error)
-                    raise MismatchedType(error)
-                elif result_type is None:
-                    # These are CiscoIOSInterface() or CiscoIOSXRInterface()
-                    new_list = [CiscoIOSInterface(ii) for ii in list_before if ii != arg]
-                elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
-                    # These are CiscoIOSInterface() or CiscoIOSXRInterface()
-                    new_list = [result_type(ii) for ii in list_before if ii != arg]
-                else:
-                    try:
-                        new_list = [result_type(ii) for ii in list_before if result_type(ii) != result_type(arg)]
-                    except TypeError:
-                        if debug is True:
-                            error = f"CiscoRange().remove() found type mismatch: {arg}"
-                            logger.debug(error)
-
-                # Break if the remove() was successful, above...
-                if len(new_list) < length_before:
-                    self._list = new_list
-                    return self
-
-        # Throw errors for inability to remove list items...
-        if len(new_list) == length_before:
-            if len(self._list) > 0 and result_type is not type(self._list[0]):
-                # Do a simple type check to see if typing is the problem...
-                error = f"CiscoRange().remove() could not remove {arg} {type(arg)} from this CiscoRange(); existing members are type {type(self._list[0])}"
+        try:
+            member = self.member_type(arg)
+        except Exception:
+            member = None
+
+        new_list = [ii for ii in self._list if member is None or ii != member]
+        if len(new_list) < len(self._list):
+            self._list = new_list
+        elif ignore_errors is not True:
+            if member is None:
+                error = f"CiscoRange().remove() could not remove {arg} {type(arg)} from this CiscoRange(); existing members are type {self.member_type}"
                 logger.error(error)
                 raise MismatchedType(error)
-            elif len(self._list) == 0:
-                if ignore_errors is not True:
-                    error = "CiscoRange().remove() cannot remove from an empty CiscoRange()"
-                    logger.critical(error)
-                    raise InvalidMember(error)
-            else:
-                # Otherwise, flag the problem as an invalid member...
-                if ignore_errors is not True:
-                    error = f"CiscoRange().remove() could not find {arg} {type(arg)} in this CiscoRange(); ensure that {arg} is {self.member_type}"
-                    logger.critical(error)
-                    raise InvalidMember(error)
+            error = f"CiscoRange().remove() could not find {arg} {type(arg)} in this CiscoRange(); ensure that {arg} is {self.member_type}"
+            logger.critical(error)
+            raise InvalidMember(error)
 
         return self
 
@@ -5249,17 +5207,6 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def as_list(self, result_type="auto"):
         """Return a list of sorted components; an empty string is automatically rejected.  This method is tricky to test due to the requirement for the `.sort_list` attribute on all elements; avoid using the ordered nature of `as_list` and use `as_set`."""
-        # WAS DEEPCOPY
-        yy_list = copy.deepcopy(self._list)
-        for ii in self._list:
-            if isinstance(ii, str) and ii == "":
-                # Reject an empty string...
-                continue
-            if getattr(ii, "sort_list", None) is not None:
-                # Require the .sort_list attribute...
-                yy_list.append(ii)
-
-        self._list = yy_list
         try:
             # Disable linter qa checks on this embedded list syntax...
             retval = sorted(set(self._list), reverse=self.reverse) # noqa
@@ -5268,10 +5215,10 @@ class CiscoRange(MutableSequence):
                     result_type = self.member_type
                     return [result_type(ii) for ii in retval]
                 else:
-                    return set()
+                    return list()
             elif result_type is None:
                 return [CiscoIOSInterface(ii) for ii in retval]
-            elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+            elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
                 return [result_type(ii) for ii in retval]
             elif result_type is str:
                 return [str(ii) for ii in retval]
@@ -5298,13 +5245,13 @@ class CiscoRange(MutableSequence):
         retval = set(self._list)
         if result_type == "auto":
             if len(self._list) > 0:
-                result_type = type(self.as_list[0])
+                result_type = self.member_type
                 return set([result_type(ii) for ii in retval])
             else:
-                return list()
+                return set()
         elif result_type is None:
             return set([CiscoIOSInterface(ii) for ii in retval])
-        elif isinstance(result_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
+        elif result_type in (CiscoIOSInterface, CiscoIOSXRInterface):
             return set([result_type(ii) for ii in retval])
         elif result_type is str:
             return set([str(ii) for ii in retval])
@@ -5336,34 +5283,43 @@ class CiscoRange(MutableSequence):
             retval = list()
 
         # Handle CiscoIOSInterface() instances...
-        if isinstance(self.member_type, (CiscoIOSInterface, CiscoIOSXRInterface)):
-            # Build a magic attribute dict so we can intelligently prepend slot/card/port/etc...
-            magic_string = "3141592653591892234109876543212345678"
-            this_obj = self.member_type(self.text.split(",")[0])
-            magic_dict = this_obj.as_dict()
-            for attr_name in ("channel", "subinterface", "port", "card", "slot",):
-                if magic_dict[attr_name] is not None:
-                    if attr_name == self.iterate_attribute:
-                        magic_dict[attr_name] = int(magic_string)
+        if self.member_type in (CiscoIOSInterface, CiscoIOSXRInterface):
+            # Group the interfaces which differ only in their last number...
+            groups = dict()
+            for component in self.as_list():
+                attrs = component.as_dict()
+                for attr_name in ("channel", "subinterface", "port"):
+                    if attrs[attr_name] is not None:
+                        ordinal = attrs.pop(attr_name)
                         break
-            if debug is True:
-                logger.info(f"CiscoRange() calling {self.member_type}(interface_dict={magic_dict}).as_compressed_str()")
-            obj = self.member_type(interface_dict=magic_dict, debug=debug)
-            if debug is True:
-                logger.success(f"    CiscoRange() call to {self.member_type}().as_compressed_str() with `interface_dict` parameter succeeded")
-            prefix_str = str(obj).replace(magic_string, "")
+                group_key = (attrs.pop("interface_class"), attr_name, tuple(attrs.items()))
+                groups.setdefault(group_key, dict())[ordinal] = component
 
-            # Build a list of the relevant string iteration pieces...
-            input_str = []
-            for _, component in enumerate(self.as_list()):
-                input_str.append(getattr(self.member_type(component), self.iterate_attribute))
+            # An interface class at the end of the whole range applies to all interfaces...
+            classes = set(group_key[0] for group_key in groups)
+            retval = list()
+            for group_key in sorted(groups, key=lambda x: x[0] is None):
+                ordinals = sorted(groups[group_key])
+                parts = CiscoRange(result_type=int)
+                parts._list = ordinals
+                # Start with the full name of the first interface...
+                first = copy.copy(groups[group_key][ordinals[0]])
+                first.interface_class = None
+                parts = (str(first) + parts.as_compressed_str()[len(str(ordinals[0])):]).split(",")
+                if group_key[0] is not None and len(classes) > 1:
+                    parts = [f"{part} {group_key[0]}" for part in parts]
+                retval.extend(parts)
+            retval = ",".join(retval)
+            if len(classes) == 1 and None not in classes:
+                retval += f" {classes.pop()}"
+            return retval
         # Handle str() instances...
         elif self.member_type is str:
             prefix_str = ""
             # Build a list of the relevant string iteration pieces...
             input_str = []
             for _, component in enumerate(self.as_list()):
-                input_str.append(str(component))
+                input_str.append(int(component))
         # Handle int() instances...
         elif self.member_type is int:
             prefix_str = ""
-- 
2.43.0


From 6e03df21a904146e33754b391a96478258912455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:10 +0000
Subject: [PATCH 049/139] fix: L4Object parses neq, rejects malformed and
 out-of-range ports, repr works

---
 ciscoconfparse/ccp_util.py | 64 ++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 33 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4645fd3..4be4f83 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2479,46 +2479,44 @@ class L4Object(object):
         else:
             raise NotImplementedError(f"This syntax is unknown: '{syntax}'")
 
-        if "eq " in port_spec.strip():
-            port_tmp = re.split(r"\s+", port_spec)[-1].strip()
-            eq_port = int(ports.get(port_tmp, port_tmp))
-            if not (1 <= eq_port <= 65535):
-                raise RequirementFailure()
-            self.port_list = [eq_port]
-        elif re.search(r"^\S+$", port_spec.strip()):
-            # Technically, 'eq ' is optional...
-            eq_port = int(ports.get(port_spec.strip(), port_spec.strip()))
-            if not (1 <= eq_port <= 65535):
-                raise RequirementFailure()
-            self.port_list = [eq_port]
-        elif "range " in port_spec.strip():
-            port_tmp = re.split(r"\s+", port_spec)[1:]
-            low_port = int(ports.get(port_tmp[0], port_tmp[0]))
-            high_port = int(ports.get(port_tmp[1], port_tmp[1]))
+        def parse_port(port_str):
+            """Return an integer for the port name or number in port_str"""
+            port_str = str(ports.get(port_str, port_str))
+            if not re.search(r"^[0-9]+$", port_str) or not (1 <= int(port_str) <= 65535):
+                error = f"'{port_str}' is not a valid {protocol} port"
+                logger.error(error)
+                raise RequirementFailure(error)
+            return int(port_str)
+
+        words = port_spec.split()
+        if len(words) == 1:
+            self.port_list = [parse_port(words[0])]
+        elif len(words) == 2 and words[0] == "eq":
+            self.port_list = [parse_port(words[1])]
+        elif len(words) == 3 and words[0] == "range":
+            low_port, high_port = parse_port(words[1]), parse_port(words[2])
             if low_port > high_port:
                 raise RequirementFailure()
-            self.port_list = sorted(range(low_port, high_port + 1))
-        elif "lt " in port_spec.strip():
-            port_tmp = re.split(r"\s+", port_spec)[-1]
-            high_port = int(ports.get(port_tmp, port_tmp))
-            if not (2 <= high_port <= 65535):
+            self.port_list = list(range(low_port, high_port + 1))
+        elif len(words) == 2 and words[0] == "lt":
+            high_port = parse_port(words[1])
+            if high_port < 2:
                 raise RequirementFailure()
-            self.port_list = sorted(range(1, high_port))
-        elif "gt " in port_spec.strip():
-            port_tmp = re.split(r"\s+", port_spec)[-1]
-            low_port = int(ports.get(port_tmp, port_tmp))
-            if not (0 < low_port < 65535):
+            self.port_list = list(range(1, high_port))
+        elif len(words) == 2 and words[0] == "gt":
+            low_port = parse_port(words[1])
+            if low_port == 65535:
                 raise RequirementFailure()
-            self.port_list = sorted(range(low_port + 1, 65536))
-        elif "neq " in port_spec.strip():
-            port_str = re.split(r"\s+", port_spec)[-1]
-            tmp = set(range(1, 65536))
-            tmp.remove(int(port_str))
-            self.port_list = sorted(tmp)
+            self.port_list = list(range(low_port + 1, 65536))
+        elif len(words) == 2 and words[0] == "neq":
+            port = parse_port(words[1])
+            self.port_list = [ii for ii in range(1, 65536) if ii != port]
         else:
             raise NotImplementedError(f"This port_spec is unknown: '{port_spec}'")
 
     def __eq__(self, val):
+        if not isinstance(val, L4Object):
+            return False
         if (self.protocol == val.protocol) and (self.port_list == val.port_list):
             return True
         return False
@@ -2526,7 +2524,7 @@ class L4Object(object):
     def __repr__(self):
         crobj = CiscoRange()
         crobj._list = self.port_list
-        return f"<L4Object {self.protocol} ports: {crobj.compressed_str}>"
+        return f"<L4Object {self.protocol} ports: {crobj.as_compressed_str()}>"
 
 
 class DNSResponse(object):
-- 
2.43.0


From cb095fb5680758d591c40eb960f02666773d04bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:58 +0000
Subject: [PATCH 050/139] fix: reject malformed type-7 passwords instead of
 decrypting them

---
 ciscoconfparse/ciscoconfparse.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index ad4b240..e63a54f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -6035,9 +6035,13 @@ class CiscoPassword(object):
         ep = ep or self.ep
         if not (len(ep) & 1):
             result = regex.search(ep)
-            try:
-                s, e = int(result.group(1)), result.group(2)
-            except ValueError:
+            if result is None:
+                raise ValueError("An encrypted password needs a salt and at least one character")
+            if re.search(r"^[0-9]{2}$", result.group(1)):
+                s, e = int(result.group(1)), ep[2:]
+                if not re.search(r"^(?:[0-9a-fA-F]{2})+\Z", e):
+                    raise ValueError("An encrypted password must only have hexadecimal digits after the salt")
+            else:
                 # typically get a ValueError for int( result.group(1))) because
                 # the method was called with an unencrypted password.  For now
                 # SILENTLY bypass the error
-- 
2.43.0


From 68cbb7e63ce0daacd4919c5abde052e1533b5c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 051/139] fix: ASA service names ftp and ftp-data had each
 other's port

---
 ciscoconfparse/protocol_values.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/protocol_values.py b/ciscoconfparse/protocol_values.py
index 730134c..b5fb662 100644
--- a/ciscoconfparse/protocol_values.py
+++ b/ciscoconfparse/protocol_values.py
@@ -64,8 +64,8 @@ ASA_TCP_PORTS = {
     "echo": 7,
     "exec": 512,
     "finger": 79,
-    "ftp": 20,
-    "ftp-data": 21,
+    "ftp": 21,
+    "ftp-data": 20,
     "gopher": 70,
     "h323": 1720,
     "hostname": 101,
-- 
2.43.0


From c45b0588da144365d42b18fa5132278ba53cfdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:33 +0000
Subject: [PATCH 052/139] fix: a banner or macro opener inside of a body does
 not open another body

---
 ciscoconfparse/ciscoconfparse.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index e63a54f..d964175 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5504,7 +5504,7 @@ class ConfigList(MutableSequence):
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-    def _banner_mark_regex(self, regex):
+    def _banner_mark_regex(self, regex, macro_parent_idx_list=()):
         """
         Use the regex input parameter to identify all banner parent
         objects. Find banner object children and formally build references
@@ -5513,13 +5513,21 @@ class ConfigList(MutableSequence):
         Set the blank_line_keep attribute for all banner parent / child objs
         Banner blank lines are automatically kept.
         """
-        # Build a list of all banner parent objects...
-        banner_objs = list(
-            filter(lambda obj: regex.search(obj.text), self._list),
-        )
+        # Line number of the last line in a banner or macro body
+        last_body_idx = -1
 
         banner_re_str = r"^(?:(?P<btype>(?:(?:set\s+)*banner\s+\w+|aaa authentication fail-message)\s+)(?P<bchar>\S))"
-        for parent in banner_objs:
+        for parent in self._list:
+            if parent.linenum <= last_body_idx:
+                # This line is text in the body of a banner or macro
+                continue
+            if parent.linenum in macro_parent_idx_list:
+                # Macros don't specify a delimiter on their parent line
+                last_body_idx = self._macro_mark_children([parent.linenum])
+                continue
+            if regex.search(parent.text) is None:
+                continue
+
             # blank_line_keep for Github Issue #229
             parent.blank_line_keep = True
 
@@ -5599,6 +5607,8 @@ class ConfigList(MutableSequence):
                 except IndexError:
                     break
 
+            last_body_idx = idx
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def _adopt_body_line(self, parent, obj):
@@ -5613,7 +5623,7 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def _macro_mark_children(self, macro_parent_idx_list):
         """
-        Set the blank_line_keep attribute for all banner parent / child objs.
+        Set the blank_line_keep attribute for all banner parent / child objs.  Return the line number of the last line in the last macro.
 
         Macro blank lines are automatically kept.
         """
@@ -5639,6 +5649,8 @@ class ConfigList(MutableSequence):
                 if cobj.text.rstrip() == "@":
                     finished = True
 
+        return idx
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def _maintain_bootstrap_parent_cache(self, parents_cache, indent, max_indent, is_config_line):
@@ -5779,12 +5791,10 @@ class ConfigList(MutableSequence):
         #    and nxos share the same method...
         if syntax not in ALL_BRACE_SYNTAX:
             banner_re = self._build_banner_re_ios()
-            self._banner_mark_regex(banner_re)
-
             # We need to use a different method for macros than banners because
             #   macros don't specify a delimiter on their parent line, but
             #   banners call out a delimiter.
-            self._macro_mark_children(macro_parent_idx_list)  # Process macros
+            self._banner_mark_regex(banner_re, macro_parent_idx_list)
 
         # change ignore_blank_lines behavior for Github Issue #229...
         #    Always allow a blank line if it's in a banner or macro...
-- 
2.43.0


From b5c6f9986216b7947bcd63b3a9bdd0ff8f91aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 053/139] fix: has_dtp is True on a switchport without
 'switchport nonegotiate'

---
 ciscoconfparse/models_cisco.py | 2 +-
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1b452c7..6a1d822 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2178,7 +2178,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ##   default value is True
         for obj in self.children:
             switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
-            if (switch is not None):
+            if switch != "":
                 return False
         return True
 
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 96124a5..9431dcb 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1524,7 +1524,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         ##   default value is True
         for obj in self.children:
             switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
-            if (switch is not None):
+            if switch != "":
                 return False
         return True
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index c6d0b17..0bcb2f7 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1300,7 +1300,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         ##   default value is True
         for obj in self.children:
             switch = obj.re_match(r"^\s*(switchport\snoneg\S*)\s*$")
-            if (switch is not None):
+            if switch != "":
                 return False
         return True
 
-- 
2.43.0


From 52564d5c9057858eef04067e93c393573b9b3ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 054/139] fix: exec-timeout and line range of an access line
 are lists

---
 ciscoconfparse/models_cisco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 6a1d822..193b3c3 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2836,7 +2836,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_typed(
             r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     @logger.catch(reraise=True)
@@ -2847,7 +2847,7 @@ class IOSAccessLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2857,7 +2857,7 @@ class IOSAccessLine(IOSCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
-- 
2.43.0


From 989669e8871f53d298af153572b3b5ee502c1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 055/139] fix: recognise 'switchport trunk encapsulation'

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 193b3c3..e660693 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2128,7 +2128,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def manual_switch_trunk_encap(self):
         for _obj in self.children:
             _parts = _obj.text.strip().split()
-            if len(_parts) == 4 and _parts[0:3] == ["switchport", "trunk", "encap"]:
+            if len(_parts) == 4 and _parts[0:2] == ["switchport", "trunk"] and _parts[2].startswith("encap"):
                 return _parts[3]
         return ""
 
-- 
2.43.0


From bb06b61c1291107d2c786a78456d4fc396ceb7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 056/139] fix: ip_helper_addresses reads helper-address
 commands only

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index e660693..370558c 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2085,7 +2085,7 @@ class BaseIOSIntfLine(IOSCfgLine):
            >>>"""
         retval = list()
         for child in self.children:
-            if "helper-address" in child.text:
+            if child.re_search(r"^\s*ip\s+helper-address\s"):
                 addr = child.re_match_typed(
                     r"ip\s+helper-address\s.*?(\d+\.\d+\.\d+\.\d+)"
                 )
-- 
2.43.0


From 24a828f98036a222e20b244224b6291d2783640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 057/139] fix: in_ipv4_subnets() with no subnets or a missing
 interface address

---
 ciscoconfparse/models_cisco.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 370558c..2d4a167 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1887,12 +1887,9 @@ class BaseIOSIntfLine(IOSCfgLine):
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
         for subnet in subnets:
-            if subnet.empty is True:
-                continue
-            tmp = self.in_ipv4_subnet(ipv4network=subnet)
-            if self.ipv4_addr_object in subnet:
-                return tmp
-        return tmp
+            if self.in_ipv4_subnet(ipv4network=subnet):
+                return True
+        return False
 
     # This method is on BaseIOSIntfLine()
     @property
-- 
2.43.0


From 91f980414b6731d13b0f85e0ecf0b1843f36e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 058/139] fix: ipv6_addr and ipv4_addr_object read the primary
 global address

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 2d4a167..7c746b8 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1380,7 +1380,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         r"""Return a ccp_util.IPv4Obj object representing the address on this interface; if there is no address, return IPv4Obj()"""
 
         retval = self.re_match_iter_typed(
-            r"^\s+ip\s+address\s+(?P<v4addr>\S+)\s+(?P<v4netmask>\d+\.\d+\.\d+\.\d+)",
+            r"^\s+ip\s+address\s+(?P<v4addr>\S+)\s+(?P<v4netmask>\d+\.\d+\.\d+\.\d+)\s*$",
             groupdict={"v4addr": str, "v4netmask": str},
             default="",
         )
@@ -1764,7 +1764,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ipv6_addr(self):
         r"""Return a string with the interface's IPv6 address, or '' if there is none"""
         retval = self.re_match_iter_typed(
-            r"^\s+ipv6\s+address\s+(?P<v6addr>[^\/]+)",
+            r"^\s+ipv6\s+address\s+(?P<v6addr>[^\/\s]+)\/",
             result_type=str,
             default="",
         )
-- 
2.43.0


From 08dc280a98f938eb81b07705793bd55c41b42598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 059/139] fix: ip_network_object() returns the interface subnet

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 7c746b8..ac4807e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1493,7 +1493,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     def ip_network_object(self):
         # Simplified on 2014-12-02
         try:
-            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_mask}", strict=False)
+            return IPv4Obj(f"{self.ipv4_addr}/{self.ipv4_netmask}", strict=False)
         except DynamicAddressException as e:
             raise DynamicAddressException(e)
         except BaseException:
-- 
2.43.0


From caa837c33198da8d8a5dbd3b4e0dbff945674235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:09 +0000
Subject: [PATCH 060/139] fix: 'duplex auto' does not disable autonegotiation

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index ac4807e..2ad08bb 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -1506,7 +1506,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         if not self.is_ethernet_intf:
             return False
         elif self.is_ethernet_intf and (
-            self.has_manual_speed or self.has_manual_duplex
+            self.has_manual_speed or self.manual_duplex not in ("", "auto")
         ):
             return False
         elif self.is_ethernet_intf:
-- 
2.43.0


From 53a2c4579109d943f74f24774b183a15b253e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:10 +0000
Subject: [PATCH 061/139] fix: interface types with a digit and sub-interface
 names with a space

---
 ciscoconfparse/models_cisco.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 2ad08bb..43747ba 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -710,7 +710,7 @@ class IOSCfgLine(BaseCfgLine):
            True
            >>>
         """
-        intf_regex = r"^interface\s+(\S+?\.\d+)"
+        intf_regex = r"^interface\s+([^.]+\.\d+)"
         if self.re_match(intf_regex):
             return True
         return False
@@ -1133,7 +1133,7 @@ class BaseIOSIntfLine(IOSCfgLine):
            'ATM'
            >>>
         """
-        port_type_regex = r"^interface\s+([A-Za-z\-]+)"
+        port_type_regex = r"^interface\s+([A-Za-z\-]+(?:\d+[A-Za-z\-]+)*)"
         return self.re_match(port_type_regex, group=1, default="")
 
     # This method is on BaseIOSIntfLine()
@@ -1249,7 +1249,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         if not self.is_intf:
             return ""
         else:
-            intf_regex = r"^interface\s+[A-Za-z\-]+\s*(\d+.*?)(\.\d+)*(\s\S+)*\s*$"
+            intf_regex = r"^interface\s+[A-Za-z\-]+(?:\d+[A-Za-z\-]+)*\s*(\d+.*?)(\.\d+)*(\s\S+)*\s*$"
             intf_number = self.re_match(intf_regex, group=1, default="")
             return intf_number
 
@@ -1301,7 +1301,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         if not self.is_intf:
             return ""
         else:
-            subintf_regex = r"^interface\s+[A-Za-z\-]+\s*(\d+.*?\.?\d?)(\s\S+)*\s*$"
+            subintf_regex = r"^interface\s+[A-Za-z\-]+(?:\d+[A-Za-z\-]+)*\s*(\d+.*?\.?\d?)(\s\S+)*\s*$"
             subintf_number = self.re_match(subintf_regex, group=1, default="")
             return subintf_number
 
-- 
2.43.0


From e995227f482c6dff00c09b4cc441207a27a9e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:30 +0000
Subject: [PATCH 062/139] fix: execute the allowed vlan commands of a trunk in
 order

---
 ciscoconfparse/models_cisco.py | 145 ++++++---------------------------
 ciscoconfparse/models_iosxr.py |   6 +-
 ciscoconfparse/models_nxos.py  |   6 +-
 3 files changed, 33 insertions(+), 124 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 43747ba..63faab7 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2201,130 +2201,39 @@ class BaseIOSIntfLine(IOSCfgLine):
         r"""Return a CiscoRange() with the list of allowed vlan numbers (as int).  Return 0 if the port isn't a switchport in trunk mode"""
 
         # The default value for retval...
-        if self.is_switchport and not self.has_manual_switch_access:
-            retval = CiscoRange(result_type=int)
-        else:
+        if not self.is_switchport or self.has_manual_switch_access:
             return 0
 
-        _all_vlans = "1-4094"
-        _max_number_vlans = 4094
-        # Default to allow allow all vlans...
-        vdict = {
-            "allowed": _all_vlans,
-            "add": None,
-            "except": None,
-            "remove": None,
-        }
-
-        ## Iterate over switchport trunk statements
-        for obj in self.children:
+        retval = CiscoRange(f"1-{MAX_VLAN}", result_type=int)
 
-            if obj.text.split()[0:5] == ["switchport", "trunk", "allowed", "vlan", "add"]:
-                add_str = obj.re_match_typed(
-                    r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+add\s+(\d[\d\-\,\s]*)$",
-                    default="_nomatch_",
-                    result_type=str,
-                ).lower()
-                if add_str != "_nomatch_":
-                    if vdict["add"] is None:
-                        vdict["add"] = add_str
-                    else:
-                        vdict["add"] += f",{add_str}"
-
-            elif obj.text.split()[0:5] == ["switchport", "trunk", "allowed", "vlan", "except"]:
-                exc_str = obj.re_match_typed(
-                    r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+except\s+(\d[\d\-\,\s]*)$",
-                    default="_nomatch_",
-                    result_type=str,
-                ).lower()
-                if exc_str != "_nomatch_":
-                    if vdict["except"] is None:
-                        vdict["except"] = exc_str
-                    else:
-                        vdict["except"] += f",{exc_str}"
-
-            elif obj.text.split()[0:5] == ["switchport", "trunk", "allowed", "vlan", "remove"]:
-                rem_str = obj.re_match_typed(
-                    r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+remove\s+(\d[\d\-\,\s]*)$",
-                    default="_nomatch_",
-                    result_type=str,
-                ).lower()
-                if rem_str != "_nomatch_":
-                    if vdict["remove"] is None:
-                        vdict["remove"] = rem_str
-                    else:
-                        vdict["remove"] += f",{rem_str}"
-
-            elif obj.text.split()[0:4] == ["switchport", "trunk", "allowed", "vlan"]:
-                ## For every child object, check whether the vlan list is modified
-                allowed_str = obj.re_match_typed(
-                    # switchport trunk allowed vlan
-                    r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+(all|none|\d[\d\-\,\s]*)$",
-                    default="_nomatch_",
-                    result_type=str,
-                ).lower()
-                if allowed_str != "_nomatch_":
-                    if allowed_str == "none":
-                        # Replace the default allow of 1-4094...
-                        vdict["allowed"] = ""
-                    elif allowed_str == "all":
-                        # Specify an initial list of vlans...
-                        vdict["allowed"] = _all_vlans
-                    else:
-                        # handle **double allowed** statements here...
-                        if vdict["allowed"] == _all_vlans:
-                            vdict["allowed"] = f"{allowed_str}"
-                        elif vdict["allowed"] == "":
-                            vdict["allowed"] = f"{allowed_str}"
-                        else:
-                            vdict["allowed"] += f",{allowed_str}"
-
-        ## Analyze each vdict in sequence and apply to retval sequentially
-        if isinstance(vdict["allowed"], str):
-            if vdict["allowed"] == _all_vlans:
-                if len(retval) != _max_number_vlans:
-                    retval = CiscoRange(f"1-{MAX_VLAN}", result_type=int)
-            elif vdict["allowed"] == "":
-                retval = CiscoRange(result_type=int)
-            elif vdict["allowed"] != "_nomatch_":
-                retval = CiscoRange(vdict["allowed"], result_type=int)
+        ## Execute the switchport trunk allowed vlan statements in order
+        for obj in self.children:
+            _parts = obj.text.lower().split()
+            if _parts[0:4] != ["switchport", "trunk", "allowed", "vlan"]:
+                continue
 
-        # Inspect vdict keys in a specific order to ensure best results...
-        for key in ["allowed", "add", "except", "remove"]:
-            _value = vdict[key]
+            key = "allowed"
+            if len(_parts) > 4 and _parts[4] in {"add", "except", "remove"}:
+                key = _parts[4]
+                _value = "".join(_parts[5:])
+            else:
+                _value = "".join(_parts[4:])
 
-            if isinstance(_value, str):
-                _value = _value.strip()
-            elif _value is None:
-                # There is nothing to be done if _value is None...
-                continue
+            if key == "allowed" and _value == "all":
+                retval = CiscoRange(f"1-{MAX_VLAN}", result_type=int)
+            elif key == "allowed" and _value == "none":
+                retval = CiscoRange(result_type=int)
+            elif re.search(r"^\d[\d\-\,]*$", _value) is None:
+                error = f"Could not derive a vlan range for {_value}"
+                logger.error(error)
+                raise InvalidCiscoEthernetVlan(error)
+            elif key == "allowed":
+                retval = CiscoRange(_value, result_type=int)
+            elif key == "add":
+                retval = retval + CiscoRange(_value, result_type=int)
+            else:
+                retval = retval - CiscoRange(_value, result_type=int)
 
-            if _value == "":
-                continue
-            elif _value != "_nomatch_":
-                ## allowed in the key overrides previous values
-                if key == "allowed":
-                    # When considering 'allowed', reset retval to be empty...
-                    retval = CiscoRange(result_type=int)
-                    if _value.lower() == "none":
-                        continue
-                    elif _value.lower() == "all":
-                        retval = CiscoRange(text=f"1-{MAX_VLAN}", result_type=int)
-                    elif isinstance(re.search(r"^\d[\d\-\,\s]*", _value), re.Match):
-                        retval = retval + CiscoRange(_value, result_type=int)
-                    else:
-                        error = f"Could not derive a vlan range for {_value}"
-                        logger.error(error)
-                        raise InvalidCiscoEthernetVlan(error)
-
-                elif key == "add":
-                    retval = retval + CiscoRange(_value, result_type=int)
-                elif key == "except" or key == "remove":
-                    retval = retval - CiscoRange(_value, result_type=int)
-                else:
-                    error = f"{key} is an invalid Cisco switched dot1q ethernet trunk action."
-                    logger.error(error)
-                    raise InvalidCiscoEthernetTrunkAction(error)
         return retval
 
     # This method is on BaseIOSIntfLine()
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 9431dcb..c7a6ede 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1603,12 +1603,12 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
                         else:
                             retval = CiscoRange(val, result_type=int)
                     elif "add" in key:
-                        retval.append(val)
+                        retval = retval + CiscoRange(val, result_type=int)
                     elif "except" in key:
                         retval = CiscoRange("1-{}".format(MAX_VLAN), result_type=int)
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
                     elif "remove" in key:
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
 
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0bcb2f7..4d8cf10 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1407,12 +1407,12 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                         else:
                             retval = CiscoRange(val, result_type=int)
                     elif "add" in key:
-                        retval.append(val)
+                        retval = retval + CiscoRange(val, result_type=int)
                     elif "except" in key:
                         retval = CiscoRange("1-{}".format(MAX_VLAN), result_type=int)
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
                     elif "remove" in key:
-                        retval.remove(val)
+                        retval = retval - CiscoRange(val, result_type=int)
 
         return retval
 
-- 
2.43.0


From 3bd63c85a7b92148cad9e6b7427abf020dc52e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 063/139] fix: print, hash and compare TrackingInterface()

---
 ciscoconfparse/models_cisco.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 63faab7..1cc0fc3 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -79,7 +79,7 @@ class TrackingInterface(BaseCfgLine):
     # This method is on TrackingInterface()
     @logger.catch(reraise=True)
     def __str__(self):
-        return f"'{self.name}' group: {self.group}, weighting: {self.weighting}, decrement: {self.decrement}"
+        return f"'{self.name}' group: {self.tracking_interface_group}, weighting: {self.weighting}, decrement: {self.decrement}"
 
     # This method is on TrackingInterface()
     @logger.catch(reraise=True)
@@ -89,7 +89,7 @@ class TrackingInterface(BaseCfgLine):
     @logger.catch(reraise=True)
     def __hash__(self):
         """Return a hash value based on the Tracking interface group, interface name and decrement / weighting."""
-        if self._name is None or self._group is None:
+        if self.name is None or self._group is None:
             error = f"Cannot hash TrackingInterface() {self}"
             logger.critical(error)
             raise ValueError(error)
@@ -101,7 +101,7 @@ class TrackingInterface(BaseCfgLine):
     def __eq__(self, other):
         """Return True or False based on whether this Tracking interface is equal to the other instance; both instances must be a TrackingInterface() instance to compare True"""
         if isinstance(other, TrackingInterface):
-            if self.name == other.name and self.group == other.group and self._interface == other._linterface and self._decrement == other._decrement and self._weighting == other._weighting:
+            if self.name == other.name and self._group == other._group and self._interface == other._interface and self._decrement == other._decrement and self._weighting == other._weighting:
                 return True
             else:
                 return False
-- 
2.43.0


From d601fe94cb701c50f9555b418e0d9925a3da3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 064/139] fix: read HSRP tracking by object number and without
 a decrement

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1cc0fc3..3e3b25d 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -319,7 +319,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
                 interface = None
                 decrement = 10
                 _gg = obj.re_match_iter_typed(
-                    r"standby\s(\d+)\s+track\s+(?P<intf>\S.+?)(?P<decr>\s+\d+)*$",
+                    r"standby\s+\d+\s+track\s+(?P<intf>\S.*?)(?:\s+decrement)?(?P<decr>\s+\d+)?$",
                     groupdict={"intf": str, "decr": str},
                 )
                 interface = _gg["intf"]
@@ -2399,7 +2399,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*track\s(\S+.+?)\s+\d+\s*",
+            r"^\s*standby\s+(\d+\s+)*track\s+(\S.*?)(?:\s+decrement)?(?:\s+\d+)?\s*$",
             group=2,
             result_type=str,
             default="",
-- 
2.43.0


From 9b94650a4cd835e5ae487ece8844d7400ae10c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 065/139] fix: HSRP preempt and preempt delay

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 3e3b25d..900b20e 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -354,7 +354,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:4] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
+            if obj_parts[0:5] == ["standby", str(self._group), "preempt", "delay", "minimum"]:
                 return int(obj_parts[5])
         # The default hello timer is 3 seconds...
         return 0
@@ -2427,7 +2427,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*(use-bia)",
+            r"^\s*standby\s+(\d+\s+)*(preempt)",
             group=2,
             result_type=bool,
             default=False,
-- 
2.43.0


From 033ea4a32a9ee0b7755bc464e9a43e9903d0028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 066/139] fix: HSRP timers with a millisecond hello or hold
 time

---
 ciscoconfparse/models_cisco.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 900b20e..9d09a55 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -369,11 +369,11 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:4] == ["standby", str(self._group), "timers", "msec"]:
-                return float(obj_parts[4]) / 1000.0
-            elif obj_parts[0:3] == ["standby", str(self._group), "timers"]:
-                return int(obj_parts[-2])
-        # The default hello timer is 3 seconds...
+            if obj_parts[0:3] == ["standby", str(self._group), "timers"]:
+                if obj_parts[3] == "msec":
+                    return float(obj_parts[4]) / 1000.0
+                return int(obj_parts[3])
+
         return 3
 
     # This method is on HSRPInterfaceGroup()
@@ -386,11 +386,11 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:2] == ["standby", str(self._group)] and obj_parts[-2] == "msec":
-                return float(obj_parts[-1]) / 1000.0
-            elif obj_parts[0:3] == ["standby", str(self._group), "timers"]:
+            if obj_parts[0:3] == ["standby", str(self._group), "timers"]:
+                if obj_parts[-2] == "msec":
+                    return float(obj_parts[-1]) / 1000.0
                 return int(obj_parts[-1])
-        # The default hold timer is 10 seconds...
+
         return 10
 
     # This method is on HSRPInterfaceGroup()
-- 
2.43.0


From f3384ddf18a9324363f4294c0b1bf9ed365359f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 067/139] fix: HSRP use_bia is read from standby commands only

---
 ciscoconfparse/models_cisco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 9d09a55..0425d03 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -432,7 +432,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
     def use_bia(self):
         """Return True if the router is configured with `standby use-bia`; `standby use-bia` helps avoid instability when introducing new HSRP routers.  Return False if the router is not configured with `standby use-bia`."""
         for obj in self._parent.children:
-            if "use-bia" in obj.text:
+            obj_parts = obj.text.lower().strip().split()
+            if obj_parts[0:1] == ["standby"] and "use-bia" in obj_parts[1:3]:
                 return True
         return False
 
-- 
2.43.0


From 142e99a09257d632a0ab79168bb88994b7b484a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 068/139] fix: HSRP md5 key-chain of the group

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 0425d03..0cbea58 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -457,8 +457,8 @@ class HSRPInterfaceGroup(BaseCfgLine):
         """Return the string text of the MD5 key-chain if this HSRP group is configured with an MD5 authentication key-chain; otherwise return an empty string."""
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
-        retval = self.re_match_iter_typed(
-            r"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
+        retval = self._parent.re_match_iter_typed(
+            rf"^\s*standby\s+{self.group}\s+authentication\s+md5\s+key-chain\s+(\S+)",
             group=1,
             result_type=str,
             default="",
-- 
2.43.0


From c0a1ada42df773955a7b5be31ff9b1788b5f43d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:30 +0000
Subject: [PATCH 069/139] fix: HSRP address of a group without an IPv4 address
 or with secondary addresses

---
 ciscoconfparse/models_cisco.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 0cbea58..052f002 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -247,11 +247,10 @@ class HSRPInterfaceGroup(BaseCfgLine):
         ##     before they put them into production
         for obj in self._parent.children:
             obj_parts = obj.text.lower().strip().split()
-            if obj_parts[0:3] == ["standby", str(self._group), "ip"]:
-                return obj_parts[-1]
-        error = f"{self} does not have an HSRP ip configured"
-        logger.error(error)
-        raise ValueError(error)
+            if obj_parts[0:3] == ["standby", str(self._group), "ip"] and len(obj_parts) == 4:
+                return obj_parts[3]
+
+        return ""
 
     # This method is on HSRPInterfaceGroup()
     @property
-- 
2.43.0


From 5d8d8883c481cd8d294714ca4ed736121c1e85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:15 +0000
Subject: [PATCH 070/139] fix: hsrp_interfaces() reads standby commands only

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 052f002..6379652 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -918,7 +918,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         retval = set()
         for obj in self.children:
             # Get each HSRP group number...
-            if re.search(r"standby\s+(?P<group>\d+)\s+ip", obj.text.strip()):
+            if re.search(r"^standby\s+(?P<group>\d+)\s+ip", obj.text.strip()):
                 group = int(obj.text.split()[1])
                 retval.add(HSRPInterfaceGroup(group=group, parent=self))
         # Return a sorted list of HSRPInterfaceGroup() instances...
-- 
2.43.0


From 655b77bbea8031c4cfdc851d5a3ae4fc4e77472e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:17 +0000
Subject: [PATCH 071/139] fix: read HSRP tracking of an interface without a
 decrement

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 6379652..d39f7ce 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -322,7 +322,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
                     groupdict={"intf": str, "decr": str},
                 )
                 interface = _gg["intf"]
-                if isinstance(_gg["decr"], str) and _gg["decr"] != "None":
+                if isinstance(_gg["decr"], str) and _gg["decr"].strip().isdigit():
                     decrement = int(_gg["decr"].strip())
                 retval.append(
                     TrackingInterface(
-- 
2.43.0


From 12384e541db90fcf8dacc220f43a90b3a2252b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:10 +0000
Subject: [PATCH 072/139] fix: print NX-OS IPv6 routes

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 4d8cf10..93b1013 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2260,7 +2260,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 
     @property
     def tracking_object_name(self):
-        return self.route_info["track_group"]
+        return self.route_info.get("track_group", None)
 
 
 ################################
-- 
2.43.0


From 5a856a66b6b6b5794201deb8f53337855b4cc8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:28 +0000
Subject: [PATCH 073/139] fix: network and next hop of IOS IPv6 routes

---
 ciscoconfparse/models_cisco.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index d39f7ce..1d96cf3 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2939,13 +2939,7 @@ class IOSRouteLine(IOSCfgLine):
         if self._address_family == "ip":
             return self.route_info["prefix"]
         elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*(\S+?)\/\d+",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+            return self.route_info["prefix"]
 
     @property
     @logger.catch(reraise=True)
@@ -2979,19 +2973,10 @@ class IOSRouteLine(IOSCfgLine):
     @property
     @logger.catch(reraise=True)
     def nexthop_str(self):
-        if self._address_family == "ip":
-            if self.next_hop_interface:
-                return self.next_hop_interface + " " + self.next_hop_addr
-            else:
-                return self.next_hop_addr
-        elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+        if self.next_hop_interface:
+            return self.next_hop_interface + " " + self.next_hop_addr
+        else:
+            return self.next_hop_addr
 
     @property
     @logger.catch(reraise=True)
-- 
2.43.0


From cd025dc5a63712650300a10872ad9dc1a0a7f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 074/139] fix: next hop of NX-OS IPv6 routes

---
 ciscoconfparse/models_nxos.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 93b1013..a5370b8 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2173,13 +2173,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
         if self._address_family == "ip":
             return self.route_info["prefix"]
         elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*(\S+?)\/\d+",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+            return self.route_info["prefix"]
 
     @property
     def netmask(self):
@@ -2205,19 +2199,10 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 
     @property
     def nexthop_str(self):
-        if self._address_family == "ip":
-            if self.next_hop_interface:
-                return self.next_hop_interface + " " + self.next_hop_addr
-            else:
-                return self.next_hop_addr
-        elif self._address_family == "ipv6":
-            retval = self.re_match_typed(
-                r"^ipv6\s+route\s+(vrf\s+)*\S+\s+(\S+)",
-                group=2,
-                result_type=str,
-                default="",
-            )
-        return retval
+        if self.next_hop_interface:
+            return self.next_hop_interface + " " + self.next_hop_addr
+        else:
+            return self.next_hop_addr
 
     @property
     def next_hop_interface(self):
-- 
2.43.0


From f0627ac0706ded3d49a856b9b379c6cecdb0203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 075/139] fix: dhcp is not the next hop interface of a static
 route

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1d96cf3..1701251 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2854,7 +2854,7 @@ _RE_IP_ROUTE = re.compile(
 (?P<prefix>\d+\.\d+\.\d+\.\d+)          # Prefix detection
 \s+
 (?P<netmask>\d+\.\d+\.\d+\.\d+)         # Netmask detection
-(?:\s+(?P<nh_intf>[^\d]\S+))?           # NH intf
+(?:\s+(?P<nh_intf>(?!dhcp(?:\s|$))[^\d]\S+))?           # NH intf
 (?:\s+(?P<nh_addr>\d+\.\d+\.\d+\.\d+))? # NH addr
 (?:\s+(?P<dhcp>dhcp))?           # DHCP keyword       (FIXME: add unit test)
 (?:\s+(?P<global>global))?       # Global keyword
-- 
2.43.0


From 9712dff085531e68c91ea1e5439047ee7c0fdfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:29 +0000
Subject: [PATCH 076/139] fix: resolve group-object in ASA service
 object-groups

---
 ciscoconfparse/ciscoconfparse.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index d964175..c2b8024 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5935,6 +5935,21 @@ class ConfigList(MutableSequence):
             retval[name] = obj
         return retval
 
+    # This method was on ASAConfigList(); now tentatively on ConfigList()
+    @ property
+    @ logger.catch(reraise=True)
+    def object_group_service(self):
+        """Return a dictionary of name to object-group service mappings"""
+        if self.syntax != "asa":
+            raise RequirementFailure()
+
+        retval = {}
+        obj_rgx = self._RE_OBJSVC
+        for obj in self.ccp_ref.find_objects(obj_rgx):
+            name = obj.re_match_typed(obj_rgx, group=1, result_type=str)
+            retval[name] = obj
+        return retval
+
     # This method was on ASAConfigList(); now tentatively on ConfigList()
     @ property
     @ logger.catch(reraise=True)
-- 
2.43.0


From 2976e68ecfa99b317f8f25a1ece4f2115bb98bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:39 +0000
Subject: [PATCH 077/139] fix: operators in service-object commands of ASA
 service object-groups

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ec3ebc9..470c6cc 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -771,7 +771,7 @@ class ASAObjGroupNetwork(ASACfgLine):
 ##
 _RE_PORTOBJ_STR = r"""(?:                            # Non-capturing parentesis
  # service-object udp destination eq dns
- (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>\S+)\s+(?P<s_port>\S+))
+ (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>source|destination)\s+(?P<s_port>\S.*?)\s*$)
 |(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.+))
 |(^\s*group-object\s+(?P<groupobject>\S+))
 )                                                   # Close non-capture parens
-- 
2.43.0


From de0d1ec79b3b19b027774a5bdda2e9f52956f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:49 +0000
Subject: [PATCH 078/139] fix: one-digit ports in ASA service object-groups

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 470c6cc..000a25d 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -772,7 +772,7 @@ class ASAObjGroupNetwork(ASACfgLine):
 _RE_PORTOBJ_STR = r"""(?:                            # Non-capturing parentesis
  # service-object udp destination eq dns
  (^\s*service-object\s+(?P<protocol>{})\s+(?P<src_dst>source|destination)\s+(?P<s_port>\S.*?)\s*$)
-|(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.+))
+|(^\s*port-object\s+(?P<operator>eq|range)\s+(?P<p_port>\S.*))
 |(^\s*group-object\s+(?P<groupobject>\S+))
 )                                                   # Close non-capture parens
 """.format(
-- 
2.43.0


From a0e16b1ab0e870e20a742c4ca2cc37fd99b72c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 079/139] fix: read ASA ICMP access-list lines to the end of
 the line

---
 ciscoconfparse/models_asa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 000a25d..ee43b04 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1263,7 +1263,7 @@ _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
       |(?:(?P<dst_network4c>\S+)\s+(?P<dst_netmask4c>\d+\.\d+\.\d+\.\d+))
     )
   )
-  (?:\s+(?P<icmp_proto4>{2}|\d+))?
+  (?:\s+(?:(?P<icmp_proto4>{2}|\d+)(?:\s+(?P<icmp_code4>\d+))?|object-group\s+(?P<icmp_object4>\S+)))?
   (?:\s+
     (?P<log4>log)
     (?:\s+(?P<loglevel4>{1}))?
@@ -1274,7 +1274,7 @@ _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
     (?:\s+(?P<inactive4>inactive))
    |(?:\s+time-range\s+(?P<time_range4>\S+))
   )?
-  )
+ \s*$)    # END access-list 4 parse
 )                                                   # Close non-capture parens
 """.format(
     _ACL_PROTOCOLS, _ACL_LOGLEVELS, _ACL_ICMP_PROTOCOLS
-- 
2.43.0


From bce275d85860b555f2aff7c7dc33ea340cb244e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 080/139] fix: read ASA standard access-list lines to the end
 of the line

---
 ciscoconfparse/models_asa.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ee43b04..eb3e509 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1238,8 +1238,7 @@ _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
    |(?:host\s+(?P<dst_network3b>\S+))
    |(?:(?P<dst_network3c>\S+)\s+(?P<dst_netmask3c>\d+\.\d+\.\d+\.\d+))
   )
-
-  )
+ \s*$)    # END access-list 3 parse
 #access-list TESTME extended permit icmp any4 0.0.0.0 0.0.0.0 unreachable log interval 1
 |(?:^access-list\s+(?P<acl_name4>\S+)
   \s+extended
-- 
2.43.0


From dd2940a59a3d058c92137afeae43495e2e2e17e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 081/139] fix: one-character ASA access-list remarks

---
 ciscoconfparse/models_asa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index eb3e509..e1725f8 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -1145,7 +1145,7 @@ _ACL_ICMP_PROTOCOLS = "alternate-address|conversion-error|echo-reply|echo|inform
 _ACL_LOGLEVELS = r"alerts|critical|debugging|emergencies|errors|informational|notifications|warnings|[0-7]"
 _RE_ACLOBJECT_STR = r"""(?:                         # Non-capturing parenthesis
 # remark
- (^access-list\s+(?P<acl_name0>\S+)\s+(?P<action0>remark)\s+(?P<remark>\S.+?)$)
+ (^access-list\s+(?P<acl_name0>\S+)\s+(?P<action0>remark)\s+(?P<remark>\S.*?)$)
 
 # extended service object with source network object, destination network object
 |(?:^access-list\s+(?P<acl_name1>\S+)
-- 
2.43.0


From 1f1dd7b5605af78033d81005c7256d4722237eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:54 +0000
Subject: [PATCH 082/139] fix: vrf of an IOS-XR interface

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index c7a6ede..9795d94 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1104,7 +1104,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     def vrf(self):
         # See Github Issue #235...
         retval = self.re_match_iter_typed(
-            r"^\s*vrf\s(\S+)$", result_type=str, group=2, default=""
+            r"^\s*vrf\s(\S+)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 1cf63eeeb5a73e5b88597cdc0e37308437bec542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:02 +0000
Subject: [PATCH 083/139] fix: one-character interface descriptions on NX-OS,
 IOS-XR and ASA

---
 ciscoconfparse/models_asa.py   | 2 +-
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_junos.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index e1725f8..9bf3f8b 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -260,7 +260,7 @@ class BaseASAIntfLine(ASACfgLine):
     @logger.catch(reraise=True)
     def description(self):
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 9795d94..8f8fa84 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -785,7 +785,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 53acb37..ab05ce8 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -652,7 +652,7 @@ class BaseJunosIntfLine(JunosCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a5370b8..a1e6dac 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -672,7 +672,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
         """
         retval = self.re_match_iter_typed(
-            r"^\s*description\s+(\S.+)$", result_type=str, default=""
+            r"^\s*description\s+(\S.*)$", result_type=str, default=""
         )
         return retval
 
-- 
2.43.0


From 99ab1374b688e4f3d1832fbcb7b51734c8595cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:11 +0000
Subject: [PATCH 084/139] fix: in_ipv4_subnets() on NX-OS, IOS-XR and ASA for
 any number of subnets

---
 ciscoconfparse/models_asa.py   | 7 +++----
 ciscoconfparse/models_iosxr.py | 7 +++----
 ciscoconfparse/models_nxos.py  | 7 +++----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 9bf3f8b..ff690ec 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -502,10 +502,9 @@ class BaseASAIntfLine(ASACfgLine):
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
         for subnet in subnets:
-            tmp = self.in_ipv4_subnet(ipv4network=subnet)
-            if self.ipv4_addr_object in subnet:
-                return tmp
-        return tmp
+            if self.in_ipv4_subnet(ipv4network=subnet):
+                return True
+        return False
 
     # This method is on BaseIOSIntfLine()
     @property
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 8f8fa84..1a36e9e 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1236,10 +1236,9 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
         for subnet in subnets:
-            tmp = self.in_ipv4_subnet(ipv4network=subnet)
-            if self.ipv4_addr_object in subnet:
-                return tmp
-        return tmp
+            if self.in_ipv4_subnet(ipv4network=subnet):
+                return True
+        return False
 
     # This method is on BaseIOSXRIntfLine()
     @property
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a1e6dac..0756df0 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1041,10 +1041,9 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                 "A python list or set of ccp_util.IPv4Obj objects must be supplied"
             )
         for subnet in subnets:
-            tmp = self.in_ipv4_subnet(ipv4network=subnet)
-            if self.ipv4_addr_object in subnet:
-                return tmp
-        return tmp
+            if self.in_ipv4_subnet(ipv4network=subnet):
+                return True
+        return False
 
     @property
     def has_no_icmp_unreachables(self):
-- 
2.43.0


From c162234e7e9d6f502531518a0b576b6a3695c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 085/139] fix: PIM mode of NX-OS and ASA interfaces

---
 ciscoconfparse/models_asa.py  | 2 +-
 ciscoconfparse/models_nxos.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index ff690ec..9f0936e 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -519,7 +519,7 @@ class BaseASAIntfLine(ASACfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 0756df0..8491000 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1130,7 +1130,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\sdense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\sdense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1145,7 +1145,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
@@ -1160,7 +1160,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return False
 
         retval = self.re_match_iter_typed(
-            r"^\s*ip\spim\ssparse-dense-mode\s*$)\s*$", result_type=bool, default=False
+            r"^\s*(ip\spim\ssparse-dense-mode)\s*$", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 227db2de0d15e87e37c719f3c9caf3e4979edbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:56 +0000
Subject: [PATCH 086/139] fix: vPC peer-link interfaces

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 8491000..7e7d7fa 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -286,7 +286,7 @@ urn -1 if it's not configured in a port-channel
     def is_vpc_peerlink(self):
         """Return a boolean indicating whether this port is configured as a vpc peer-link port"""
         retval = self.re_match_iter_typed(
-            r"^\s*vpc\s+peer-link", result_type=str, default=""
+            r"^\s*vpc\s+(peer-link)", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 8cf08aac29df6c494c55132f380339e4d35ce816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:04 +0000
Subject: [PATCH 087/139] fix: NX-OS helper addresses outside a VRF

---
 ciscoconfparse/models_nxos.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 7e7d7fa..6b8e2ab 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1211,16 +1211,13 @@ class BaseNXOSIntfLine(NXOSCfgLine):
            >>>"""
         retval = list()
 
-        for child in self.children:
-            if "vrf member" in child.text:
-                vrf = child.re_match_typed(r"vrf\s+member\s+(\S+)", default="")
-                break
+        vrf = self.vrf
 
         for child in self.children:
-            if "dhcp relay address" in child.text:
-                addr = child.re_match_typed(
-                    r"ip\s+dhcp\s+relay\s+address\s+(\d+\.\d+\.\d+\.\d+)"
-                )
+            addr = child.re_match_typed(
+                r"^\s*ip\s+dhcp\s+relay\s+address\s+(\d+\.\d+\.\d+\.\d+)", default=""
+            )
+            if addr:
                 global_addr = ""
                 retval.append({"addr": addr, "vrf": vrf, "global": bool(global_addr)})
         return retval
-- 
2.43.0


From af10f9dc9dcdde04cdbc1d91de44687056453c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 088/139] fix: NX-OS storm control

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 6b8e2ab..11db636 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1282,7 +1282,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         if not self.is_switchport:
             return False
         retval = self.re_match_iter_typed(
-            r"^\s*(storm-control)\s*$", result_type=bool, default=False
+            r"^\s*(storm-control)\s", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From 1d1fa815c56e4a1fdebd605b15ab78e37905ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:19 +0000
Subject: [PATCH 089/139] fix: NX-OS interface addresses with a route tag

---
 ciscoconfparse/models_nxos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 11db636..84a37a3 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -941,7 +941,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
     def ipv4_addr(self):
         """Return a string with the interface's IPv4 address, or '' if there is none"""
         retval = self.re_match_iter_typed(
-            r"^\s+ip\s+address\s+(\d+\.\d+\.\d+\.\d+)\s*\/\d+\s*$",
+            r"^\s+ip\s+address\s+(\d+\.\d+\.\d+\.\d+)\s*\/\d+(?:\s+tag\s+\d+)?\s*$",
             result_type=str,
             default="",
         )
@@ -958,7 +958,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
     def ipv4_masklength(self):
         """Return a string with the interface's IPv4 masklength, or 0 if there is none"""
         retval = self.re_match_iter_typed(
-            r"^\s+ip\s+address\s+\d+\.\d+\.\d+\.\d+\s*\/(\d+)\s*$",
+            r"^\s+ip\s+address\s+\d+\.\d+\.\d+\.\d+\s*\/(\d+)(?:\s+tag\s+\d+)?\s*$",
             result_type=int,
             default=0,
         )
-- 
2.43.0


From 8fce30394927c1ba86a0bfbaea0604ee64782557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:27 +0000
Subject: [PATCH 090/139] fix: vPC keepalive timeout beside a hold timeout

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 84a37a3..2c3e602 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1877,7 +1877,7 @@ class NXOSvPCLine(BaseCfgLine):
             r"peer-keepalive\s+.*?interval\s+(\d+)", result_type=int, default=-1
         )
         timeout = self.re_match_iter_typed(
-            r"peer-keepalive\s+.*?timeout\s+(\d+)", result_type=int, default=-1
+            r"peer-keepalive\s+.*?\stimeout\s+(\d+)", result_type=int, default=-1
         )
         prec = self.re_match_iter_typed(
             r"peer-keepalive\s+.*?precedence\s+(\S+)", result_type=str, default=""
-- 
2.43.0


From 921772740c9bebc9482ae6806e074a7002bc623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 091/139] fix: no ip arp synchronize in a vPC domain

---
 ciscoconfparse/models_nxos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 2c3e602..a2efbda 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1858,7 +1858,7 @@ class NXOSvPCLine(BaseCfgLine):
     @property
     def has_ip_arp_synchronize(self):
         retval = self.re_match_iter_typed(
-            r"(ip\s+arp\s+synchronize)", result_type=bool, default=False
+            r"^\s*(ip\s+arp\s+synchronize)", result_type=bool, default=False
         )
         return retval
 
-- 
2.43.0


From c2c4afc4c62f415c29a2cd9487ca8042ff1e0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:43 +0000
Subject: [PATCH 092/139] fix: default HSRP priority on NX-OS

---
 ciscoconfparse/models_nxos.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a2efbda..1f68448 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1513,11 +1513,9 @@ class BaseNXOSIntfLine(NXOSCfgLine):
             return 0  # Return this if there is no hsrp on the interface
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
-                retval = hsrpobj.re_match_iter_typed(
+                return hsrpobj.re_match_iter_typed(
                     r"^\s+priority\s+(\d+)", result_type=int, default=DEFAULT_PRI
                 )
-                if retval != DEFAULT_PRI:
-                    return retval
 
     @property
     def hsrp_hello_timer(self):
-- 
2.43.0


From b99a4efe65234824394ba5a8e552f0d19d0bc8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:50 +0000
Subject: [PATCH 093/139] fix: NX-OS HSRP timers without a group and with mixed
 units

---
 ciscoconfparse/models_nxos.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 1f68448..d3d9751 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1526,10 +1526,10 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
                 timer_sec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+(\d+)\s+\d+", result_type=float, default=0.0
+                    r"^\s+timers\s+(\d+)\s+(?:msec\s+)?\d+", result_type=float, default=0.0
                 )
                 timer_msec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+msec\s+(\d+)\s+msec\s+\d+",
+                    r"^\s+timers\s+msec\s+(\d+)\s+(?:msec\s+)?\d+",
                     result_type=float,
                     default=0.0,
                 )
@@ -1539,7 +1539,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                     return timer_msec / 1000.0
                 return 0.0
 
-        return retval
+        return 0.0
 
     @property
     def hsrp_hold_timer(self):
@@ -1550,10 +1550,10 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         for hsrpobj in self.children:
             if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
                 timer_sec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+\d+\s+(\d+)", result_type=float, default=0.0
+                    r"^\s+timers\s+(?:msec\s+)?\d+\s+(\d+)", result_type=float, default=0.0
                 )
                 timer_msec = hsrpobj.re_match_iter_typed(
-                    r"^\s+timers\s+msec\s+\d+\s+msec\s+(\d+)",
+                    r"^\s+timers\s+(?:msec\s+)?\d+\s+msec\s+(\d+)",
                     result_type=float,
                     default=0.0,
                 )
@@ -1563,7 +1563,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
                     return timer_msec / 1000.0
                 return 0.0
 
-        return retval
+        return 0.0
 
     @property
     def has_hsrp_track(self):
-- 
2.43.0


From 44d273f83a7802cb87dd180ec3225cf01d1f0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 094/139] fix: network of an ASA interface without an address

---
 ciscoconfparse/models_asa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 9f0936e..bebef83 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -345,6 +345,8 @@ class BaseASAIntfLine(ASACfgLine):
     @property
     @logger.catch(reraise=True)
     def ip_network_object(self):
+        if self.ipv4_addr == "":
+            return IPv4Obj()
         try:
             return IPv4Obj(
                 "{}/{}".format(self.ipv4_addr, self.ipv4_netmask), strict=False
-- 
2.43.0


From 95b0823b5e82748b2d5ee9276df0daf8fd81f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:20 +0000
Subject: [PATCH 095/139] fix: duplex auto is autonegotiation on NX-OS, IOS-XR
 and ASA

---
 ciscoconfparse/models_asa.py   | 3 ++-
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index bebef83..9164997 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -391,7 +391,8 @@ class BaseASAIntfLine(ASACfgLine):
         if not self.is_ethernet_intf:
             return False
         elif self.is_ethernet_intf and (
-            self.has_manual_speed or self.has_manual_duplex
+            self.has_manual_speed
+            or (self.has_manual_duplex and not self.re_search_children(r"^\s*duplex\s+auto\s*$"))
         ):
             return False
         elif self.is_ethernet_intf:
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 1a36e9e..88541b0 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -906,7 +906,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         if not self.is_ethernet_intf:
             return False
         elif self.is_ethernet_intf and (
-            self.has_manual_speed or self.has_manual_duplex
+            self.has_manual_speed or self.manual_duplex not in ("", "auto")
         ):
             return False
         elif self.is_ethernet_intf:
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index d3d9751..ff2a8a1 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -785,7 +785,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
         if not self.is_ethernet_intf:
             return False
         elif self.is_ethernet_intf and (
-            self.has_manual_speed or self.has_manual_duplex
+            self.has_manual_speed or self.manual_duplex not in ("", "auto")
         ):
             return False
         elif self.is_ethernet_intf:
-- 
2.43.0


From 4ddd3462b63db1e6e870cc4be7b10f58df2e29b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:29 +0000
Subject: [PATCH 096/139] fix: sub-interface and channel of IOS-XR interface
 names

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4be4f83..d4d6fee 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4065,7 +4065,7 @@ class CiscoIOSXRInterface(object):
             raise InvalidCiscoInterface(error)
 
         re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
-        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?)", interface_name.strip())
+        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?(?:\.\d+)?(?:\:\d+)?)", interface_name.strip())
         re_any = re.search(r".*", interface_name.strip())
         if isinstance(re_intf_short, re.Match):
 
-- 
2.43.0


From a67eea6389c1c906d1540081096ff328d69b19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:27 +0000
Subject: [PATCH 097/139] fix: keep the text of a command when negating it

---
 ciscoconfparse/ccp_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index efcaa19..889b66d 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -647,10 +647,10 @@ class BaseCfgLine(metaclass=ABCMeta):
         # condition the first in this if-else logic...
         elif tmp[0].lower() == "no":
             assert len(tmp) > 1  # join() below only makes sense if len(tmp)>1
-            return self.indent * " " + " ".join(tmp[1:])
+            return re.sub(r"^(\s*)no\s+", r"\1", self.text, flags=re.IGNORECASE)
 
         else:
-            return self.indent * " " + "no " + self.text.lstrip()
+            return self.text[: self.indent] + "no " + self.text.lstrip()
 
     @uncfgtext.setter
     def uncfgtext(self, value=""):
-- 
2.43.0


From b7b5c245f2103979e20a04eccbf70f813f7a4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:33 +0000
Subject: [PATCH 098/139] fix: reset() of interface and access lines

---
 ciscoconfparse/models_asa.py   | 2 +-
 ciscoconfparse/models_cisco.py | 4 ++--
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_junos.py | 2 +-
 ciscoconfparse/models_nxos.py  | 4 ++--
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index 9164997..d4abf7b 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -176,7 +176,7 @@ class BaseASAIntfLine(ASACfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.insert_before(self.build_reset_string())
 
     @logger.catch(reraise=True)
     def build_reset_string(self):
diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 1701251..89ccafa 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -929,7 +929,7 @@ class BaseIOSIntfLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.insert_before(self.build_reset_string())
 
     # This method is on BaseIOSIntfLine()
     @logger.catch(reraise=True)
@@ -2721,7 +2721,7 @@ class IOSAccessLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.insert_before(self.build_reset_string())
 
     @logger.catch(reraise=True)
     def build_reset_string(self):
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 88541b0..25b26e1 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -409,7 +409,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.insert_before(self.build_reset_string())
 
     # This method is on BaseIOSXRIntfLine()
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index ab05ce8..ea27c95 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -415,7 +415,7 @@ class BaseJunosIntfLine(JunosCfgLine):
     @logger.catch(reraise=True)
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.insert_before(self.build_reset_string())
 
     # This method is on BaseJunosIntfLine()
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index ff2a8a1..fb6b56a 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -343,7 +343,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.insert_before(self.build_reset_string())
 
     def build_reset_string(self):
         # IOS interfaces are defaulted like this...
@@ -1976,7 +1976,7 @@ class NXOSAccessLine(BaseCfgLine):
 
     def reset(self, atomic=True):
         # Insert build_reset_string() before this line...
-        self.insert_before(self.build_reset_string(), atomic=atomic)
+        self.insert_before(self.build_reset_string())
 
     def build_reset_string(self):
         # IOS interfaces are defaulted like this...
-- 
2.43.0


From a723022fec7be9bb7ff9a2e2390227a129816a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:07 +0000
Subject: [PATCH 099/139] fix: a list of lines is less than or equal to itself

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index c2b8024..0406704 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5002,7 +5002,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __le__(self, other):
-        return self._list < self.__cast(other)
+        return self._list <= self.__cast(other)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 01399fc9fb2fb4b238d053957b4a4d49da24d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:15 +0000
Subject: [PATCH 100/139] fix: slices, sums, multiples and copies of a list of
 lines

---
 ciscoconfparse/ciscoconfparse.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 0406704..378c23c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5033,7 +5033,7 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def __getitem__(self, ii):
         if isinstance(ii, slice):
-            return self.__class__(self._list[ii])
+            return self._copy_with(self._list[ii])
         else:
             return self._list[ii]
 
@@ -5053,19 +5053,19 @@ class ConfigList(MutableSequence):
     @ logger.catch(reraise=True)
     def __add__(self, other):
         if isinstance(other, ConfigList):
-            return self.__class__(self._list + other._list)
+            return self._copy_with(self._list + other._list)
         elif isinstance(other, type(self._list)):
-            return self.__class__(self._list + other)
-        return self.__class__(self._list + list(other))
+            return self._copy_with(self._list + other)
+        return self._copy_with(self._list + list(other))
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __radd__(self, other):
         if isinstance(other, ConfigList):
-            return self.__class__(other._list + self._list)
+            return self._copy_with(other._list + self._list)
         elif isinstance(other, type(self._list)):
-            return self.__class__(other + self._list)
-        return self.__class__(list(other) + self._list)
+            return self._copy_with(other + self._list)
+        return self._copy_with(list(other) + self._list)
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
@@ -5081,7 +5081,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __mul__(self, val):
-        return self.__class__(self._list * val)
+        return self._copy_with(self._list * val)
 
     __rmul__ = __mul__
 
@@ -5099,6 +5099,14 @@ class ConfigList(MutableSequence):
         inst.__dict__["_list"] = self.__dict__["_list"][:]
         return inst
 
+    # This method is on ConfigList()
+    @ logger.catch(reraise=True)
+    def _copy_with(self, objs):
+        # Return a copy of this ConfigList() which holds the line objects in objs
+        inst = self.__copy__()
+        inst._list = objs
+        return inst
+
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def __str__(self):
@@ -5168,7 +5176,7 @@ class ConfigList(MutableSequence):
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
     def copy(self):
-        return self.__class__(self)
+        return self.__copy__()
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 6c8862fe0d4bc19bd9e7a1e451f39a877a799064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 101/139] fix: AAA server groups and methods

---
 ciscoconfparse/models_cisco.py | 16 ++++++++--------
 ciscoconfparse/models_nxos.py  | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 89ccafa..7e8e763 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3155,13 +3155,13 @@ class IOSAaaLoginAuthenticationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
 
-        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(\s.*)?$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3181,13 +3181,13 @@ class IOSAaaEnableAuthenticationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
 
-        regex = r"^aaa\s+authentication\s+enable\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authentication\s+enable\s+(\S+)\s+group\s+(\S+)(\s.*)?$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3207,14 +3207,14 @@ class IOSAaaCommandsAuthorizationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
 
-        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+commands\s+(\d+)\s+(\S+)\s+group\s+(\S+)(\s.*)?$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
@@ -3234,14 +3234,14 @@ class IOSAaaConsoleAuthorizationLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization console"
 
-        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s+(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s+(\S+)\s+group\s+(\S+)(\s.*)?$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     @logger.catch(reraise=True)
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index fb6b56a..94d5866 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2305,13 +2305,13 @@ class NXOSAaaLoginAuthenticationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
 
-        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthentication\slogin\s(\S+)\sgroup\s(\S+)(\s.*)?$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2328,13 +2328,13 @@ class NXOSAaaEnableAuthenticationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
 
-        regex = r"^aaa\sauthentication\senable\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthentication\senable\s(\S+)\sgroup\s(\S+)(\s.*)?$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=2, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=3, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2351,14 +2351,14 @@ class NXOSAaaCommandsAuthorizationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
 
-        regex = r"^aaa\sauthorization\scommands\s(\d+)\s(\S+)\sgroup\s(\S+)(.+?)$"
+        regex = r"^aaa\sauthorization\scommands\s(\d+)\s(\S+)\sgroup\s(\S+)(\s.*)?$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
@@ -2375,14 +2375,14 @@ class NXOSAaaConsoleAuthorizationLine(BaseCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization console"
 
-        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s(\S+)\s+group\s+(\S+)(.+?)$"
+        regex = r"^aaa\s+authorization\s+console\s+(\d+)\s(\S+)\s+group\s+(\S+)(\s.*)?$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
         )
         self.group = self.re_match_typed(regex, group=3, result_type=str, default="")
         methods_str = self.re_match_typed(regex, group=4, result_type=str, default="")
-        self.methods = methods_str.strip().split(r"\s")
+        self.methods = methods_str.split()
 
     @classmethod
     def is_object_for(cls, all_lines, line, re=re):
-- 
2.43.0


From 09bf7927787ae65ed5207cc73ce9704c9f49ac56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:52 +0000
Subject: [PATCH 102/139] fix: private AAA servers without options

---
 ciscoconfparse/models_cisco.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 7e8e763..94acaec 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3137,7 +3137,7 @@ class IOSAaaGroupServerLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def server_private(self, re=re):
         retval = set([])
-        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)\s")
+        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)")
         for cobj in self.children:
             mm = rgx_priv.search(cobj.text)
             if (mm is not None):
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 94d5866..52fdf35 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2289,7 +2289,7 @@ class NXOSAaaGroupServerLine(BaseCfgLine):
     @property
     def server_private(self, re=re):
         retval = set()
-        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)\s")
+        rgx_priv = re.compile(r"^\s+server-private\s+(\S+)")
         for cobj in self.children:
             mm = rgx_priv.search(cobj.text)
             if (mm is not None):
-- 
2.43.0


From 0cd5787cc9957f14f8068f0ce3200f283fb6035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:00 +0000
Subject: [PATCH 103/139] fix: NX-OS access line ranges and exec-timeouts

---
 ciscoconfparse/models_nxos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 52fdf35..a65161a 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1994,7 +1994,7 @@ class NXOSAccessLine(BaseCfgLine):
         retval = self.re_match_typed(
             r"([a-zA-Z]+\s+)*(\d+\s*\d*)$", group=2, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
     def manual_exectimeout_minutes(self):
@@ -2003,7 +2003,7 @@ class NXOSAccessLine(BaseCfgLine):
 
     def manual_exectimeout_seconds(self):
         tmp = self.parse_exectimeout
-        if len(tmp > 0):
+        if len(tmp) < 2:
             return 0
         return tmp[1]
 
@@ -2012,7 +2012,7 @@ class NXOSAccessLine(BaseCfgLine):
         retval = self.re_match_iter_typed(
             r"^\s*exec-timeout\s+(\d+\s*\d*)\s*$", group=1, result_type=str, default=""
         )
-        tmp = map(int, retval.strip().split())
+        tmp = list(map(int, retval.strip().split()))
         return tmp
 
 
-- 
2.43.0


From bd9b496a2321315fad59666eece97f2a40efb2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:34 +0000
Subject: [PATCH 104/139] fix: only units of a Junos interface are
 subinterfaces

---
 ciscoconfparse/models_junos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index ea27c95..78409ad 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -183,7 +183,7 @@ class JunosCfgLine(BaseCfgLine):
                 ##############################################################
                 for unitobj in intfobj.children:
                     if unitobj is self:
-                        return True
+                        return unitobj.text.split()[0:1] == ["unit"]
             return False
         return False
 
-- 
2.43.0


From 79217877e1169d3e2abd28c0b16e222af8d8dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:33 +0000
Subject: [PATCH 105/139] fix: Junos switchports

---
 ciscoconfparse/models_junos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 78409ad..42ea0ad 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -237,7 +237,7 @@ class JunosCfgLine(BaseCfgLine):
         """Return True if this is a switchport interface"""
         if self.is_intf is True:
             for cobj in self.all_children:
-                if "family ethernet-switching" in cobj.text:
+                if cobj.text.split()[0:2] == ["family", "ethernet-switching"]:
                     return True
         return False
 
-- 
2.43.0


From e69e317b30944ade6b3ceedf141813f130817613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:33 +0000
Subject: [PATCH 106/139] fix: IOS-XR has_hsrp_preempt

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 25b26e1..e5f5b32 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1801,7 +1801,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*(use-bia)",
+            r"^\s*standby\s+(\d+\s+)*(preempt)",
             group=2,
             result_type=bool,
             default=False,
-- 
2.43.0


From 3f2455c37905f0fb7a24266f890591687376d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:57 +0000
Subject: [PATCH 107/139] fix: is_intf and its kin on typed NX-OS and ASA lines

---
 ciscoconfparse/models_asa.py  |  6 +++---
 ciscoconfparse/models_nxos.py | 24 ++++++++++++------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/ciscoconfparse/models_asa.py b/ciscoconfparse/models_asa.py
index d4abf7b..7b2c281 100644
--- a/ciscoconfparse/models_asa.py
+++ b/ciscoconfparse/models_asa.py
@@ -924,7 +924,7 @@ class ASAIntfLine(BaseASAIntfLine):
 ##
 
 
-class ASAIntfGlobal(BaseCfgLine):
+class ASAIntfGlobal(ASACfgLine):
     @logger.catch(reraise=True)
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -947,7 +947,7 @@ class ASAIntfGlobal(BaseCfgLine):
 ##
 
 
-class ASAHostnameLine(BaseCfgLine):
+class ASAHostnameLine(ASACfgLine):
     @logger.catch(reraise=True)
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
@@ -976,7 +976,7 @@ class ASAHostnameLine(BaseCfgLine):
 ##
 
 
-class BaseASARouteLine(BaseCfgLine):
+class BaseASARouteLine(ASACfgLine):
     @logger.catch(reraise=True)
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index a65161a..e59acb5 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1723,7 +1723,7 @@ class NXOSIntfLine(BaseNXOSIntfLine):
 ##
 
 
-class NXOSIntfGlobal(BaseCfgLine):
+class NXOSIntfGlobal(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "interface global"
@@ -1768,7 +1768,7 @@ class NXOSIntfGlobal(BaseCfgLine):
 ##
 ##-------------  NXOS vPC line
 ##
-class NXOSvPCLine(BaseCfgLine):
+class NXOSvPCLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "vpc"
@@ -1917,7 +1917,7 @@ class NXOSvPCLine(BaseCfgLine):
 ##
 
 
-class NXOSHostnameLine(BaseCfgLine):
+class NXOSHostnameLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "hostname"
@@ -1942,7 +1942,7 @@ class NXOSHostnameLine(BaseCfgLine):
 ##
 
 
-class NXOSAccessLine(BaseCfgLine):
+class NXOSAccessLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "access line"
@@ -2021,7 +2021,7 @@ class NXOSAccessLine(BaseCfgLine):
 ##
 
 
-class BaseNXOSRouteLine(BaseCfgLine):
+class BaseNXOSRouteLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
 
@@ -2251,7 +2251,7 @@ class NXOSRouteLine(BaseNXOSRouteLine):
 ##-------------  NXOS TACACS+ Group
 ##
 
-class NXOSAaaGroupServerLine(BaseCfgLine):
+class NXOSAaaGroupServerLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa group server"
@@ -2300,7 +2300,7 @@ class NXOSAaaGroupServerLine(BaseCfgLine):
 ##-------------  NXOS AAA Login Authentication Lines
 ##
 
-class NXOSAaaLoginAuthenticationLine(BaseCfgLine):
+class NXOSAaaLoginAuthenticationLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication login"
@@ -2323,7 +2323,7 @@ class NXOSAaaLoginAuthenticationLine(BaseCfgLine):
 ##-------------  NXOS AAA Enable Authentication Lines
 ##
 
-class NXOSAaaEnableAuthenticationLine(BaseCfgLine):
+class NXOSAaaEnableAuthenticationLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authentication enable"
@@ -2346,7 +2346,7 @@ class NXOSAaaEnableAuthenticationLine(BaseCfgLine):
 ##-------------  NXOS AAA Commands Authorization Lines
 ##
 
-class NXOSAaaCommandsAuthorizationLine(BaseCfgLine):
+class NXOSAaaCommandsAuthorizationLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization commands"
@@ -2370,7 +2370,7 @@ class NXOSAaaCommandsAuthorizationLine(BaseCfgLine):
 ##-------------  NXOS AAA Console Authorization Lines
 ##
 
-class NXOSAaaConsoleAuthorizationLine(BaseCfgLine):
+class NXOSAaaConsoleAuthorizationLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa authorization console"
@@ -2394,7 +2394,7 @@ class NXOSAaaConsoleAuthorizationLine(BaseCfgLine):
 ##-------------  NXOS AAA Commands Accounting Lines
 ##
 
-class NXOSAaaCommandsAccountingLine(BaseCfgLine):
+class NXOSAaaCommandsAccountingLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting commands"
@@ -2419,7 +2419,7 @@ class NXOSAaaCommandsAccountingLine(BaseCfgLine):
 ##-------------  NXOS AAA Exec Accounting Lines
 ##
 
-class NXOSAaaExecAccountingLine(BaseCfgLine):
+class NXOSAaaExecAccountingLine(NXOSCfgLine):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting exec"
-- 
2.43.0


From 416cfa9bb34c710073c7a2cdf78885f18a462057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:05 +0000
Subject: [PATCH 108/139] fix: closing braces in line-oriented configurations

---
 ciscoconfparse/ciscoconfparse.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 378c23c..85628ae 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -529,7 +529,7 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
     if input_condition is True and len(input_list) > 0:
         opening_brace_objs = []
         for obj in input_list:
-            if isinstance(obj, BaseCfgLine) and isinstance(obj.text, str):
+            if isinstance(obj, BaseCfgLine) and isinstance(obj.text, str) and not obj.is_comment:
                 # These rstrip() are one of two fixes, intended to catch user error such as
                 # the problems that the submitter of Github issue #251 had.
                 # CiscoConfParse() could not read his configuration because he submitted
@@ -541,9 +541,13 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
 
                 elif len(obj.text.strip()) >= 1 and obj.text.strip()[0] == "}":
                     if len(opening_brace_objs) >= 1:
-                        obj.parent = opening_brace_objs.pop()
-                    else:
-                        raise ValueError
+                        parent = opening_brace_objs.pop()
+                        if obj.parent is not parent:
+                            if obj.parent is not obj:
+                                obj.parent.children.remove(obj)
+                            parent.children.append(obj)
+                            parent.children.sort()
+                            obj.parent = parent
 
     return input_list
 
-- 
2.43.0


From 00737221aa2fa802abf21cdc1c16cb7640997a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:19 +0000
Subject: [PATCH 109/139] fix: an IOS-XR interface can be built from another
 one or its dictionary

---
 ciscoconfparse/ccp_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index d4d6fee..282261c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4141,13 +4141,13 @@ class CiscoIOSXRInterface(object):
             logger.error(error)
             raise ValueError(error)
 
-        if len(interface_dict.keys()) != 8:
-            error = f"CiscoIOSXRInterface() `interface_dict`: must have exactly 8 dictionary keys, but {len(interface_dict.keys())} were found."
+        if len(interface_dict.keys()) != 9:
+            error = f"CiscoIOSXRInterface() `interface_dict`: must have exactly 9 dictionary keys, but {len(interface_dict.keys())} were found."
             logger.error(error)
             raise ValueError(error)
 
         for attr_name in set(interface_dict.keys()):
-            if attr_name not in {"prefix", "slot", "card", "port", "digit_separator", "subinterface", "channel", "interface_class"}:
+            if attr_name not in {"prefix", "slot", "card", "processor", "port", "digit_separator", "subinterface", "channel", "interface_class"}:
                 error = f"'{attr_name}' is not a valid `attribute_dict` key"
                 logger.critical(error)
                 raise KeyError(error)
-- 
2.43.0


From 66db6e246ee9beee2044478e770e4738a0f462b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:29 +0000
Subject: [PATCH 110/139] fix: IOS-XR interface names are parsed completely or
 rejected

---
 ciscoconfparse/ccp_util.py     | 11 ++++++++---
 ciscoconfparse/models_iosxr.py |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 282261c..3032c39 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4065,8 +4065,13 @@ class CiscoIOSXRInterface(object):
             raise InvalidCiscoInterface(error)
 
         re_intf_short = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$", interface_name.strip())
-        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?(?:\.\d+)?(?:\:\d+)?)", interface_name.strip())
+        re_intf_long = re.search(r"^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot_card_port_subinterface_channel>(?P<slot>[a-zA-Z0-9]+)(?P<sep1>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<card>[a-zA-Z0-9]+)?(?P<sep2>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<processor>[a-zA-Z0-9]+)?(?P<sep3>[^\:^\.^\-^\s^\d^a-z^A-Z])?(?P<port>[a-zA-Z0-9]+)?(?:\.\d+)?(?:\:\d+)?(?:\s+[a-zA-Z][\w\-]*)?)", interface_name.strip())
         re_any = re.search(r".*", interface_name.strip())
+        # Reject names which the regular expressions above only match in part...
+        if re.search(r"^[a-zA-Z\-\s]*(?:\d+(?P<sep>[^\:\.\-\s\da-zA-Z])(?:[a-zA-Z]*\d+(?P=sep)[a-zA-Z]*\d+(?P=sep))?)?\d+(?:\.\d+)?(?:\:\d+)?(?:\s+[a-zA-Z][\w\-]*)?$", interface_name.strip()) is None:
+            error = f"The interface_name: string '{interface_name.strip()}' could not be parsed."
+            logger.critical(error)
+            raise InvalidCiscoInterface(error)
         if isinstance(re_intf_short, re.Match):
 
             intf_short = self.parse_intf_short(re_intf_short=re_intf_short)
@@ -4205,7 +4210,7 @@ class CiscoIOSXRInterface(object):
         else:
             _channel = None
 
-        re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z\-]+)$", _slot_card_port_subinterface_channel)
+        re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z][\w\-]*)$", _slot_card_port_subinterface_channel)
         if isinstance(re_interface_class, re.Match):
             _interface_class = str(re_interface_class.groupdict()["interface_class"])
         else:
@@ -4311,7 +4316,7 @@ class CiscoIOSXRInterface(object):
                 else:
                     _channel = None
 
-                re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z\-]+)$", _slot_card_port_subinterface_channel)
+                re_interface_class = re.search(r"(?P<interface_class>\s+[a-zA-Z][\w\-]*)$", _slot_card_port_subinterface_channel)
                 if isinstance(re_interface_class, re.Match):
                     _interface_class = str(re_interface_class.groupdict()["interface_class"])
                 else:
diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index e5f5b32..2f0b5de 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -480,7 +480,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
             error = "`{self.text}` is not a valid Cisco interface"
             logger.error(error)
             raise InvalidCiscoInterface(error)
-        return CiscoIOSXRInterface("".join(self.text.split()[1:]))
+        return CiscoIOSXRInterface(" ".join(self.text.split()[1:]))
 
     # This method is on BaseIOSXRIntfLine()
     @property
-- 
2.43.0


From 0cb0df3dacf58966d33c50fb4176499629306f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 111/139] fix: IOS-XR interfaces sort by number

---
 ciscoconfparse/ccp_util.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 3032c39..e3fc5a3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4394,17 +4394,13 @@ class CiscoIOSXRInterface(object):
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
-            return True
-        return False
+        return self.sort_key > other.sort_key
 
     # This method is on CiscoIOSXRInterface()
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
-            return True
-        return False
+        return self.sort_key < other.sort_key
 
     # This method is on CiscoIOSXRInterface()
     @logger.catch(reraise=True)
@@ -4729,6 +4725,20 @@ class CiscoIOSXRInterface(object):
         "Return the sort_list"
         return self.update_sort_list()
 
+    # This method is on CiscoIOSXRInterface()
+    @property
+    def sort_key(self):
+        """A version of sort_list which is always comparable; numbers sort as numbers and an absent component sorts first."""
+        retval = []
+        for ii in self.sort_list:
+            if ii is None:
+                retval.append((0, 0, ""))
+            elif ii.isdigit():
+                retval.append((1, int(ii), ii))
+            else:
+                retval.append((2, 0, ii))
+        return retval
+
     # This method is on CiscoIOSXRInterface()
     @sort_list.setter
     @logger.catch(reraise=True)
@@ -5096,7 +5106,7 @@ class CiscoRange(MutableSequence):
                 if isinstance(target_list, list):
                     if isinstance(target_list[0], (CiscoIOSInterface, CiscoIOSXRInterface)):
                         # Sort CiscoIOSInterface() or CiscoIOSXRInterface members
-                        if attribute == "sort_list" and isinstance(target_list[0], CiscoIOSInterface):
+                        if attribute == "sort_list":
                             new_list = sorted(target_list, reverse=reverse)
                         else:
                             new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
-- 
2.43.0


From 6f55a22cd109bfff424cc89794d3f92d1bd4e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:50 +0000
Subject: [PATCH 112/139] fix: slot_card_port_subinterface_channel of IOS-XR
 interfaces

---
 ciscoconfparse/ccp_util.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index e3fc5a3..c41dc90 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4548,20 +4548,12 @@ class CiscoIOSXRInterface(object):
         else:
             _interface_class = f" {self.interface_class.strip()}"
 
-        if isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and isinstance(self.channel, (int, str)):
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}:{self.channel}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and isinstance(self.subinterface, (int, str)) and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}.{self.subinterface}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and isinstance(self.card, (int, str)) and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.card}{self.digit_separator}{self.port}{_interface_class}"
-        elif isinstance(self.digit_separator, str) and isinstance(self.slot, (int, str)) and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.slot}{self.digit_separator}{self.port}{_interface_class}"
-        elif self.slot is None and self.card is None and isinstance(self.port, (int, str)) and self.subinterface is None and self.channel is None:
-            return f"{self.port}{_interface_class}"
-        else:
-            error = "Could not construct a return value for CiscoIOSXRInterface().slot_card_port_subinterface_channel.  digit_separator: {self.digit_separator} sort_list: {self.sort_list}"
-            logger.error(error)
-            raise ValueError(error)
+        retval = self.number
+        if self.subinterface is not None:
+            retval += f".{self.subinterface}"
+        if self.channel is not None:
+            retval += f":{self.channel}"
+        return f"{retval}{_interface_class}"
 
     # This method is on CiscoIOSXRInterface()
     @property
-- 
2.43.0


From 550164b0e7c8ceabb4a465deb5a8c70f01eaaeb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:25 +0000
Subject: [PATCH 113/139] fix: dns_query() for A and AAAA records

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index c41dc90..cb2a051 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2634,7 +2634,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     start = time.time()
     if (query_type == "A") or (query_type == "AAAA"):
         try:
-            answer = query(input_str, query_type)
+            answer = rr.query(input_str, query_type)
             duration = time.time() - start
             for result in answer:
                 response = DNSResponse(
-- 
2.43.0


From d7ca2ae6a23da0c97f6783c7b7f9b6b252813037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:33 +0000
Subject: [PATCH 114/139] fix: dns_query() asks the server it is given

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index cb2a051..2c22beb 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2628,7 +2628,7 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
     # input = input_str.strip()
     retval = set()
     rr = Resolver()
-    rr.server = [socket.gethostbyname(server)]
+    rr.nameservers = [socket.gethostbyname(server)]
     rr.timeout = float(timeout)
     rr.lifetime = float(timeout)
     start = time.time()
-- 
2.43.0


From d62bd686fb0912c04565cb08d671c1a5563de240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:42 +0000
Subject: [PATCH 115/139] fix: dns_query() for MX records

---
 ciscoconfparse/ccp_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 2c22beb..323aff0 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2701,7 +2701,8 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 response = DNSResponse(
                     query_type=query_type,
                     input_str=input_str,
-                    result_str=str(result.target),
+                    duration=duration,
+                    result_str=str(result.exchange),
                 )
                 response.preference = int(result.preference)
                 retval.add(response)
-- 
2.43.0


From 6e526272345711d5835c09984e7992c8af1c421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:52 +0000
Subject: [PATCH 116/139] fix: dns_query() for TXT records

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 323aff0..9e988d0 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2798,8 +2798,8 @@ def dns_query(input_str="", query_type="", server="", timeout=2.0):
                 response = DNSResponse(
                     query_type=query_type,
                     duration=duration,
-                    input_str=inaddr,
-                    result_str=str(result.strings),
+                    input_str=input_str,
+                    result_str="".join(ii.decode() for ii in result.strings),
                 )
                 retval.add(response)
         except DNSException as e:
-- 
2.43.0


From 5b65fae2cb827d6f586432e62ab84b32352ed75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:34 +0000
Subject: [PATCH 117/139] fix: integer ranges with characters int() ignores

---
 ciscoconfparse/ccp_util.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 9e988d0..1230885 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4835,6 +4835,12 @@ class CiscoRange(MutableSequence):
         integers = []
         csv_parts = text.split(",")
         for idx, _csv_part in enumerate(csv_parts):
+            # int() also accepts text which is not a number in a range, such as '1_0' or '+5'...
+            if re.search(r"[^0-9\s\-]", _csv_part):
+                error = f"Could not divide {_csv_part} into integer components"
+                logger.error(error)
+                raise InvalidCiscoRange(error)
+
             if "-" in _csv_part:
                 if len(_csv_part.split("-")) == 2:
                     # Append a whole range of interfaces...
-- 
2.43.0


From b8124e0b81cb9bb6b4b0f71bedffa755be911da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:02 +0000
Subject: [PATCH 118/139] fix: removal commands of a line which looks like the
 placeholder text

---
 ciscoconfparse/ccp_abc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 889b66d..cdd0f91 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -601,7 +601,7 @@ class BaseCfgLine(metaclass=ABCMeta):
            >>> obj.add_uncfgtext(" no ip proxy-arp")
         """
         assert isinstance(unconftext, str)
-        assert isinstance(self.text, str) and self.text != DEFAULT_TEXT
+        assert isinstance(self.text, str)
 
         # adding a deprecation warning in version 1.7.0...
         deprecation_warn_str = "add_uncfgtext() is deprecated and will be removed."
@@ -625,7 +625,7 @@ class BaseCfgLine(metaclass=ABCMeta):
         This `uncfgtext` string should not be considered correct
         in all Cisco IOS command unconfigure cases.
         """
-        assert isinstance(self.text, str) and self.text != DEFAULT_TEXT
+        assert isinstance(self.text, str)
 
         tmp = [ii.strip() for ii in self.text.split()]
 
-- 
2.43.0


From a1b98cd6641f408e18703e44bcd77a8b4255d288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:21 +0000
Subject: [PATCH 119/139] fix: typed extraction of a group which took no part
 in the match returns the default

---
 ciscoconfparse/ccp_abc.py        | 6 +++---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index cdd0f91..e941bad 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1318,7 +1318,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
             # Return the result if the parent line matches the regex...
             mm = re.search(regex, self.text)
-            if isinstance(mm, re.Match):
+            if isinstance(mm, re.Match) and mm.group(group) is not None:
                 return result_type(mm.group(group))
 
             if recurse is False:
@@ -1326,7 +1326,7 @@ class BaseCfgLine(metaclass=ABCMeta):
                     if debug is True:
                         logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj}<--")
                     mm = re.search(regex, cobj.text)
-                    if isinstance(mm, re.Match):
+                    if isinstance(mm, re.Match) and mm.group(group) is not None:
                         return result_type(mm.group(group))
                 ## Ref Github issue #121
                 if untyped_default is True:
@@ -1338,7 +1338,7 @@ class BaseCfgLine(metaclass=ABCMeta):
                     if debug is True:
                         logger.debug(f"    {self}.re_match_iter_typed() is checking match of r'''{regex}''' on -->{cobj}<--")
                     mm = re.search(regex, cobj.text)
-                    if isinstance(mm, re.Match):
+                    if isinstance(mm, re.Match) and mm.group(group) is not None:
                         return result_type(mm.group(group))
                 ## Ref Github issue #121
                 if untyped_default is True:
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 85628ae..c9a8df1 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3484,7 +3484,7 @@ class CiscoConfParse(object):
                 continue
 
             mm = re.search(regexspec, cobj.text)
-            if mm is not None:
+            if mm is not None and mm.group(group) is not None:
                 return result_type(mm.group(group))
         ## Ref Github issue #121
         if untyped_default:
-- 
2.43.0


From 4e54029453d12e8b9a5adaa36394b2f0db06d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:53 +0000
Subject: [PATCH 120/139] fix: the trunk encapsulation of an NX-OS or IOS-XR
 interface is the encapsulation type

---
 ciscoconfparse/models_iosxr.py | 2 +-
 ciscoconfparse/models_nxos.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 2f0b5de..2caf335 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1473,7 +1473,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
     @logger.catch(reraise=True)
     def manual_switch_trunk_encap(self):
         retval = self.re_match_iter_typed(
-            r"^\s*(switchport\s+trunk\s+encap\s+(\S+))\s*$", result_type=str, default=""
+            r"^\s*switchport\s+trunk\s+encap\S*\s+(\S+)\s*$", result_type=str, default=""
         )
         return retval
 
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index e59acb5..c0862ea 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1244,7 +1244,7 @@ class BaseNXOSIntfLine(NXOSCfgLine):
     def manual_switch_trunk_encap(self):
         """Return a string with the switchport encapsulation type; if there is no manual trunk encapsulation, return ''."""
         retval = self.re_match_iter_typed(
-            r"^\s*(switchport\s+trunk\s+encapsulation\s+(\S+))\s*$",
+            r"^\s*switchport\s+trunk\s+encapsulation\s+(\S+)\s*$",
             result_type=str,
             default="",
         )
-- 
2.43.0


From f376337f19b71e734a5f9e392a914f860e59f255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:48 +0000
Subject: [PATCH 121/139] fix: a removed helper address of an IOS-XR interface
 is not one of its helper addresses

---
 ciscoconfparse/models_iosxr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_iosxr.py b/ciscoconfparse/models_iosxr.py
index 2caf335..eeba381 100644
--- a/ciscoconfparse/models_iosxr.py
+++ b/ciscoconfparse/models_iosxr.py
@@ -1431,7 +1431,7 @@ class BaseIOSXRIntfLine(IOSXRCfgLine):
            >>>"""
         retval = list()
         for child in self.children:
-            if "helper-address" in child.text:
+            if re.search(r"^\s*ip\s+helper-address\s", child.text):
                 addr = child.re_match_typed(
                     r"ip\s+helper-address\s.*?(\d+\.\d+\.\d+\.\d+)"
                 )
-- 
2.43.0


From ca260a24fabd3bb0249cdef1d32b8c8793849272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:23 +0000
Subject: [PATCH 122/139] fix: run_this_posix_command with an environment

---
 ciscoconfparse/ccp_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 1230885..25a330c 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -207,12 +207,13 @@ def run_this_posix_command(cmd, timeout=None, shell=False, cwd=None, encoding=lo
     """
 
     if isinstance(env, dict):
-        for key, value in env.items:
+        for key, value in env.items():
             if isinstance(key, str) and isinstance(value, (str, int, float)):
                 pass  # noqa
             else:
                 error = f"The ENV {key}: {value} {type(value)} mapping entry is invalid."
                 raise ValueError(error)
+        env = {key: str(value) for key, value in env.items()}
     elif env is None:
         pass          # noqa
     else:
@@ -231,7 +232,7 @@ def run_this_posix_command(cmd, timeout=None, shell=False, cwd=None, encoding=lo
 
     output_namedtuple = subprocess.run(
         cmdparts, timeout=timeout, capture_output=True, shell=shell, cwd=cwd,
-        encoding=encoding
+        encoding=encoding, env=env
     )
     (return_code, stdout, stderr) = (output_namedtuple.returncode, output_namedtuple.stdout, output_namedtuple.stderr)
 
-- 
2.43.0


From 13e2cff3ba70a4b78cf65bba7fa2996fd03e45ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:55 +0000
Subject: [PATCH 123/139] fix: fix_repeated_words with a word which has special
 characters

---
 ciscoconfparse/ccp_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 25a330c..6f09ba3 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -527,9 +527,10 @@ def fix_repeated_words(cmd="", word=""):
         raise RequirementFailure()
     if not (isinstance(word, str) and len(word) > 0):
         raise RequirementFailure()
+    word = re.escape(word.strip())
     while True:
         # look at the command and fix the repeated words in it...
-        rgx = rf"^(?P<indent>\s*){word.strip()}\s+{word.strip()}\s+(?P<remaining_cmd>\S.*)$"
+        rgx = rf"^(?P<indent>\s*){word}\s+{word}\s+(?P<remaining_cmd>\S.*)$"
         mm = re.search(rgx, cmd)
         if mm is not None:
             # We found a repeated word in the command...
-- 
2.43.0


From 8127b7ce2952afd5acae3a5d1dab6014b8729270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:00 +0000
Subject: [PATCH 124/139] fix: read_only parsing after the log handlers were
 removed

---
 ciscoconfparse/ccp_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 6f09ba3..4594cc5 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -377,7 +377,11 @@ def configure_loguru(
         if isinstance(handler_id, int):
             if debug > 0:
                 print(f"Disabling loguru handler: {handler_id}")
-            ccp_logger_control(action="remove", read_only=read_only, active_handlers=[handler_id])
+            try:
+                ccp_logger_control(action="remove", read_only=read_only, active_handlers=[handler_id])
+            except ValueError:
+                # The handler is already gone, for instance after logger.remove()
+                pass
         else:
             raise ValueError(f"handler_id must be an integer -->{handler_id}<--")
 
-- 
2.43.0


From 85e5995a7a3bdfbbf6eb6b015c9258fbdcfdbf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:16 +0000
Subject: [PATCH 125/139] fix: the level and colorize arguments of the log
 handlers

---
 ciscoconfparse/ccp_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 4594cc5..09fd6da 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -320,8 +320,8 @@ def ccp_logger_control(
             # rotation="00:00",
             # retention="1 day",
             # compression="zip",
-            colorize=True,
-            level="DEBUG",
+            colorize=colorize,
+            level=level,
         )
         logger.enable(package_name)
         active_handlers.append(handler_id)
@@ -392,7 +392,7 @@ def configure_loguru(
     active_loguru_handlers = ccp_logger_control(
         sink=sys.stdout,
         action="add",
-        level="DEBUG",
+        level=level,
         # rotation='midnight',   # ALE barks about the rotation keyword...
         # retention="1 month",
         # compression=compression,
-- 
2.43.0


From b0635ec168403455d5e51488feccd46455d4f2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:30 +0000
Subject: [PATCH 126/139] fix: log_function_call used as a decorator with
 parentheses

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 09fd6da..6c658b9 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -513,7 +513,7 @@ def log_function_call(function=None, *args, **kwargs):
         logger.info("Type 4 log_function_call: %s()" % (function.__qualname__))
         return logging_decorator(function)
 
-    logger.info("Type 5 log_function_call: %s()" % (function.__qualname__))
+    logger.info("Type 5 log_function_call: decorator called without a function")
     return logging_decorator
 
 
-- 
2.43.0


From 4367c16238cde029aa57a6ff4f822447c4571ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:06 +0000
Subject: [PATCH 127/139] fix: from_dict() of interfaces checks the digit
 separator

---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 6c658b9..b348e8d 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3480,9 +3480,9 @@ class CiscoIOSInterface(object):
     def from_dict(self, attribute_dict):
         obj = CiscoIOSInterface("Ethernet1")
         obj.prefix = attribute_dict["prefix"]
-        obj.digit_separator = attribute_dict["digit_separator"]
         obj.slot = attribute_dict["slot"]
         obj.card = attribute_dict["card"]
+        obj.digit_separator = attribute_dict["digit_separator"]
         obj.port = attribute_dict["port"]
         obj.subinterface = attribute_dict["subinterface"]
         obj.channel = attribute_dict["channel"]
@@ -4361,9 +4361,9 @@ class CiscoIOSXRInterface(object):
     def from_dict(self, attribute_dict):
         obj = CiscoIOSXRInterface("Ethernet1")
         obj.prefix = attribute_dict["prefix"]
-        obj.digit_separator = attribute_dict["digit_separator"]
         obj.slot = attribute_dict["slot"]
         obj.card = attribute_dict["card"]
+        obj.digit_separator = attribute_dict["digit_separator"]
         obj.processor = attribute_dict["processor"]
         obj.port = attribute_dict["port"]
         obj.subinterface = attribute_dict["subinterface"]
-- 
2.43.0


From 48c055f59787fa2234efe740d0d46ef6aa0cd95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:20 +0000
Subject: [PATCH 128/139] fix: braces in the text of a banner or macro

---
 ciscoconfparse/ciscoconfparse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index c9a8df1..f0ffdb0 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5792,8 +5792,7 @@ class ConfigList(MutableSequence):
 
             retval.append(obj)
 
-        # Manually assign a parent on all closing braces
-        self._list = assign_parent_to_closing_braces(input_list=retval)
+        self._list = retval
 
         # Call _banner_mark_regex() to process banners in the returned obj
         # list.
@@ -5808,6 +5807,12 @@ class ConfigList(MutableSequence):
             #   banners call out a delimiter.
             self._banner_mark_regex(banner_re, macro_parent_idx_list)
 
+        # Manually assign a parent on all closing braces; braces in the text of
+        # a banner or macro do not open or close anything.
+        assign_parent_to_closing_braces(
+            input_list=[ii for ii in retval if not (ii.blank_line_keep or ii.parent.blank_line_keep)]
+        )
+
         # change ignore_blank_lines behavior for Github Issue #229...
         #    Always allow a blank line if it's in a banner or macro...
         if self.ignore_blank_lines is True:
-- 
2.43.0


From e66d24e63a6a9d8cdbaa5127bc2cb68d97d9e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:53 +0000
Subject: [PATCH 129/139] fix: find_objects_w_all_children() refuses a string
 as list of regexes

---
 ciscoconfparse/ciscoconfparse.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index f0ffdb0..73b4b8f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2043,6 +2043,12 @@ class CiscoConfParse(object):
             (Sequence,),
             "childspec parameter must be an instance of collections.abc.Sequence().",
         )
+        # A plain string is also a Sequence, but its characters aren't
+        #   a list of regular expressions...
+        if isinstance(childspec, (str, bytes)):
+            error = "childspec parameter must be a list of regular expressions, not a string."
+            logger.critical(error)
+            raise ValueError(error)
 
         retval = []
         if ignore_ws is True:
@@ -2099,6 +2105,12 @@ class CiscoConfParse(object):
             (Sequence,),
             "childspec parameter must be an instance of collections.abc.Sequence().",
         )
+        # A plain string is also a Sequence, but its characters aren't
+        #   a list of regular expressions...
+        if isinstance(childspec, (str, bytes)):
+            error = "childspec parameter must be a list of regular expressions, not a string."
+            logger.critical(error)
+            raise ValueError(error)
 
         retval = []
         if ignore_ws is True:
-- 
2.43.0


From e41bd230069a630a60436d4dd044cc9b29665b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:08 +0000
Subject: [PATCH 130/139] fix: req_cfgspec_*_diff() refuse a string as list of
 required lines

---
 ciscoconfparse/ciscoconfparse.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 73b4b8f..b01742d 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3548,6 +3548,12 @@ class CiscoConfParse(object):
         deprecation_warn_str = "`req_cfgspec_all_diff()` will be deprecated and removed in future versions."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
 
+        # The characters of a string are not a list of required lines
+        if isinstance(cfgspec, (str, bytes)):
+            error = "cfgspec parameter must be a list of configuration lines, not a string."
+            logger.critical(error)
+            raise ValueError(error)
+
         skip_cfgspec = dict()
         retval = list()
         matches = self._find_line_OBJ("[a-zA-Z]")
@@ -3616,6 +3622,12 @@ class CiscoConfParse(object):
         deprecation_warn_str = "`req_cfgspec_excl_diff()` will be deprecated and removed in future versions."
         warnings.warn(deprecation_warn_str, DeprecationWarning)
 
+        # The characters of a string are not a list of required lines
+        if isinstance(cfgspec, (str, bytes)):
+            error = "cfgspec parameter must be a list of configuration lines, not a string."
+            logger.critical(error)
+            raise ValueError(error)
+
         violate_objs = list()
         uncfg_objs = list()
         skip_cfgspec = dict()
-- 
2.43.0


From e319ce32297c31af712aa202bcf33896c69c2446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:47 +0000
Subject: [PATCH 131/139] fix: sort() of the list of configuration lines takes
 no extra argument

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index b01742d..5f646df 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5223,7 +5223,7 @@ class ConfigList(MutableSequence):
 
     # This method is on ConfigList()
     @ logger.catch(reraise=True)
-    def sort(self, _unknown_arg, *args, **kwds):
+    def sort(self, *args, **kwds):
         self._list.sort(*args, **kwds)
 
     # This method is on ConfigList()
-- 
2.43.0


From 0bb5a6ad66dc26edf91680e159e9805bca3d59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:09 +0000
Subject: [PATCH 132/139] fix: req_cfgspec_excl_diff() leaves the uncfgtext of
 the lines as it was

---
 ciscoconfparse/ciscoconfparse.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 5f646df..2e857bc 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3630,6 +3630,7 @@ class CiscoConfParse(object):
 
         violate_objs = list()
         uncfg_objs = list()
+        uncfgtexts = dict()
         skip_cfgspec = dict()
         retval = list()
         matches = self._find_line_OBJ(linespec)
@@ -3645,15 +3646,19 @@ class CiscoConfParse(object):
                 # If a violation is found...
                 violate_objs.append(lineobj)
                 result = re.search(uncfgspec, lineobj.text)
-                # add uncfgtext to the violator's lineobject
+                # build the violator's uncfgtext; this query leaves the
+                # uncfgtext of the lineobject itself as it was...
+                saved_uncfgtext = lineobj._uncfgtext_to_be_deprecated
                 lineobj.add_uncfgtext(result.group(0))
+                uncfgtexts[lineobj] = lineobj.uncfgtext
+                lineobj._uncfgtext_to_be_deprecated = saved_uncfgtext
         ## Make the list of unconfig objects, recurse through parents
         for vobj in violate_objs:
             parent_objs = vobj.all_parents
             for parent_obj in parent_objs:
                 uncfg_objs.append(parent_obj)
             uncfg_objs.append(vobj)
-        retval = self._objects_to_uncfg(uncfg_objs, violate_objs)
+        retval = self._objects_to_uncfg(uncfg_objs, uncfgtexts)
         ## Add missing lines...
         ## TODO: Find a way to add the parent of the missing lines
         for line in cfgspec:
@@ -4005,15 +4010,13 @@ class CiscoConfParse(object):
 
     # This method is on CiscoConfParse()
     @ logger.catch(reraise=True)
-    def _objects_to_uncfg(self, objectlist, unconflist):
-        # Used by req_cfgspec_excl_diff()
+    def _objects_to_uncfg(self, objectlist, unconfdict):
+        # Used by req_cfgspec_excl_diff(); unconfdict maps the objects to be
+        # unconfigured to their uncfgtext
         retval = []
-        unconfdict = {}
-        for unconf in unconflist:
-            unconfdict[unconf] = "DEFINED"
         for obj in self._unique_OBJ(objectlist):
-            if unconfdict.get(obj, None) == "DEFINED":
-                retval.append(obj.uncfgtext)
+            if obj in unconfdict:
+                retval.append(unconfdict[obj])
             else:
                 retval.append(obj.text)
         return retval
-- 
2.43.0


From bae46eed75b240fc4558086881c11479bb8106be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:37:33 +0000
Subject: [PATCH 133/139] fix: Junos units and the interfaces block are
 recognised by their place, not by part of a name

---
 ciscoconfparse/models_junos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_junos.py b/ciscoconfparse/models_junos.py
index 42ea0ad..46be415 100644
--- a/ciscoconfparse/models_junos.py
+++ b/ciscoconfparse/models_junos.py
@@ -165,7 +165,7 @@ class JunosCfgLine(BaseCfgLine):
         """
         # Check whether the oldest parent is "interfaces {"...
         if len(self.all_parents) >= 1:
-            in_intf_block = bool(self.all_parents[0].text.strip()[0:10] == "interfaces")
+            in_intf_block = bool(self.all_parents[0].text.strip() == "interfaces")
             interfacesobj = self.all_parents[0]
         else:
             in_intf_block = False
@@ -226,7 +226,8 @@ class JunosCfgLine(BaseCfgLine):
            >>>
         """
         if self.is_intf is True:
-            if "unit" in self.intf_name:
+            # units are directly below an interface of the interfaces block
+            if len(self.all_parents) > 1:
                 return True
         return False
 
-- 
2.43.0


From b5f58f8260201d3de160c1920cd48126154d3604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:38 +0000
Subject: [PATCH 134/139] fix: ASA banner commands have no delimiter and no
 body

---
 ciscoconfparse/ciscoconfparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 2e857bc..bbfe98b 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5827,7 +5827,9 @@ class ConfigList(MutableSequence):
         #
         # Build the banner_re regexp... at this point ios
         #    and nxos share the same method...
-        if syntax not in ALL_BRACE_SYNTAX:
+        #
+        # ASA banners have no delimiter; each banner command is one line.
+        if syntax not in ALL_BRACE_SYNTAX and syntax != "asa":
             banner_re = self._build_banner_re_ios()
             # We need to use a different method for macros than banners because
             #   macros don't specify a delimiter on their parent line, but
-- 
2.43.0


From 911e7b974442bee1635a0d62a6012e082de2e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:41 +0000
Subject: [PATCH 135/139] fix: prompt-timeout, slip-ppp and config-save banners
 are banners

---
 ciscoconfparse/ciscoconfparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index bbfe98b..f12ec97 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5555,7 +5555,7 @@ class ConfigList(MutableSequence):
         # Line number of the last line in a banner or macro body
         last_body_idx = -1
 
-        banner_re_str = r"^(?:(?P<btype>(?:(?:set\s+)*banner\s+\w+|aaa authentication fail-message)\s+)(?P<bchar>\S))"
+        banner_re_str = r"^(?:(?P<btype>(?:(?:set\s+)*banner\s+(?:\w+|prompt-timeout|slip-ppp|config-save)|aaa authentication fail-message)\s+)(?P<bchar>\S))"
         for parent in self._list:
             if parent.linenum <= last_body_idx:
                 # This line is text in the body of a banner or macro
@@ -5865,6 +5865,9 @@ class ConfigList(MutableSequence):
             "exec",
             "telnet",
             "lcd",
+            "prompt-timeout",
+            "slip-ppp",
+            "config-save",
         }
         banner_all = [r"^(set\s+)*banner\s+{}".format(ii) for ii in banner_str]
         banner_all.append(
-- 
2.43.0


From cad1b6ceb1e71f74d2acc1802065c592de07c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:36 +0000
Subject: [PATCH 136/139] fix: the source interface of RADIUS server groups

---
 ciscoconfparse/models_cisco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 94acaec..0d8811b 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3127,7 +3127,7 @@ class IOSAaaGroupServerLine(IOSCfgLine):
     @logger.catch(reraise=True)
     def source_interface(self):
         return self.re_match_iter_typed(
-            r"^\s+ip\s+tacacs\s+source-interface\s+(\S.+?\S)\s*$",
+            r"^\s+ip\s+(?:tacacs|radius)\s+source-interface\s+(\S.+?\S)\s*$",
             group=1,
             result_type=str,
             default="",
-- 
2.43.0


From af00e0c7e80010ba266ad124f155e4690e85a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:42 +0000
Subject: [PATCH 137/139] fix: accounting lists with further groups or
 broadcast

---
 ciscoconfparse/models_cisco.py | 4 ++--
 ciscoconfparse/models_nxos.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 0d8811b..5619b82 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -3261,7 +3261,7 @@ class IOSAaaCommandsAccountingLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting commands"
 
-        regex = r"^aaa\s+accounting\s+commands\s+(\d+)\s+(\S+)\s+(none|stop\-only|start\-stop)\s+group\s+(\S+)$"
+        regex = r"^aaa\s+accounting\s+commands\s+(\d+)\s+(\S+)\s+(none|stop\-only|start\-stop)(?:\s+broadcast)?\s+group\s+(\S+)(?:\s.*)?$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
@@ -3289,7 +3289,7 @@ class IOSAaaExecAccountingLine(IOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting exec"
 
-        regex = r"^aaa\s+accounting\s+exec\s+(\S+)\s+(none|stop\-only|start\-stop)\s+group\s(\S+)$"
+        regex = r"^aaa\s+accounting\s+exec\s+(\S+)\s+(none|stop\-only|start\-stop)(?:\s+broadcast)?\s+group\s(\S+)(?:\s.*)?$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index c0862ea..7dcdf5e 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -2399,7 +2399,7 @@ class NXOSAaaCommandsAccountingLine(NXOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting commands"
 
-        regex = r"^aaa\saccounting\scommands\s(\d+)\s(\S+)\s(none|stop\-only|start\-stop)\sgroup\s(\S+)$"
+        regex = r"^aaa\saccounting\scommands\s(\d+)\s(\S+)\s(none|stop\-only|start\-stop)(?:\sbroadcast)?\sgroup\s(\S+)(?:\s.*)?$"
         self.level = self.re_match_typed(regex, group=1, result_type=int, default=0)
         self.list_name = self.re_match_typed(
             regex, group=2, result_type=str, default=""
@@ -2424,7 +2424,7 @@ class NXOSAaaExecAccountingLine(NXOSCfgLine):
         super().__init__(*args, **kwargs)
         self.feature = "aaa accounting exec"
 
-        regex = r"^aaa\saccounting\sexec\s(\S+)\s(none|stop\-only|start\-stop)\sgroup\s(\S+)$"
+        regex = r"^aaa\saccounting\sexec\s(\S+)\s(none|stop\-only|start\-stop)(?:\sbroadcast)?\sgroup\s(\S+)(?:\s.*)?$"
         self.list_name = self.re_match_typed(
             regex, group=1, result_type=str, default=""
         )
-- 
2.43.0


From 0013d6a8855aec0bc944afd8a2a2b55c0a05e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:47 +0000
Subject: [PATCH 138/139] fix: the key chain of an NX-OS HSRP group

---
 ciscoconfparse/models_nxos.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/models_nxos.py b/ciscoconfparse/models_nxos.py
index 7dcdf5e..b7cae22 100644
--- a/ciscoconfparse/models_nxos.py
+++ b/ciscoconfparse/models_nxos.py
@@ -1604,9 +1604,17 @@ class BaseNXOSIntfLine(NXOSCfgLine):
 
     @property
     def hsrp_authentication_md5_keychain(self):
-        ## FIXME nxos
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
+        for hsrpobj in self.children:
+            if hsrpobj.re_match_typed(r"^\s+hsrp\s+(\d+)"):
+                retval = hsrpobj.re_match_iter_typed(
+                    r"^\s+authentication\s+md5\s+key-chain\s+(\S+)",
+                    result_type=str,
+                    default="",
+                )
+                if retval:
+                    return retval
         retval = self.re_match_iter_typed(
             r"^\s*standby\s+(\d+\s+)*authentication\s+md5\s+key-chain\s+(\S+)",
             group=2,
-- 
2.43.0


From 4d932b6dcc0eb257a4e348b6d03b36b40c085e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:10 +0000
Subject: [PATCH 139/139] fix: HSRP tracking of an object which shuts the group
 down

---
 ciscoconfparse/models_cisco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index 5619b82..60b08e2 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -318,7 +318,7 @@ class HSRPInterfaceGroup(BaseCfgLine):
                 interface = None
                 decrement = 10
                 _gg = obj.re_match_iter_typed(
-                    r"standby\s+\d+\s+track\s+(?P<intf>\S.*?)(?:\s+decrement)?(?P<decr>\s+\d+)?$",
+                    r"standby\s+\d+\s+track\s+(?P<intf>\S.*?)(?:\s+(?:decrement|shutdown))?(?P<decr>\s+\d+)?$",
                     groupdict={"intf": str, "decr": str},
                 )
                 interface = _gg["intf"]
@@ -2399,7 +2399,7 @@ class BaseIOSIntfLine(IOSCfgLine):
         ## For API simplicity, I always assume there is only one hsrp
         ##     group on the interface
         retval = self.re_match_iter_typed(
-            r"^\s*standby\s+(\d+\s+)*track\s+(\S.*?)(?:\s+decrement)?(?:\s+\d+)?\s*$",
+            r"^\s*standby\s+(\d+\s+)*track\s+(\S.*?)(?:\s+(?:decrement|shutdown))?(?:\s+\d+)?\s*$",
             group=2,
             result_type=str,
             default="",
-- 
2.43.0

