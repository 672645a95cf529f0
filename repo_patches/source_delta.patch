From a402e42585f290b30b209284bf198a35b40eae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:40 +0000
Subject: [PATCH 01/75] fix: don't abort parsing with StopIteration on an
 unterminated last statement

A file ending in a line continuation or directly behind the opening line of
a function made prepare_lines leak StopIteration out of Stash.AddFile.
---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 1f47ade..05b9297 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -113,13 +113,13 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         res = buffer
         next_ = ''
         if RegexRpl.search(__next_line_regex__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             while RegexRpl.search(__next_line_regex__, line):
                 res += line
-                _, line = _iter.__next__()
+                _, line = next(_iter, (0, ''))
             res += line
         elif RegexRpl.match(__func_start_regexp__, res):
-            _, line = _iter.__next__()
+            _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
             while not stopiter:
-- 
2.43.0


From 48ca2010229478eaa2a392efcbef1d0034209c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:53 +0000
Subject: [PATCH 02/75] fix: keep the full variable name (and flag) of unset
 statements

The lazy, unanchored name group only captured the first character, so
'unset FOO' was reported (and applied by ExpandVar) as an unset of 'F'.
---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 05b9297..cc98331 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -55,7 +55,7 @@ __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
 __regex_unset = regex.compile(
-    r"^(\s+|\t+)*unset(\s+|\t+)+(?P<varname>.+?)(\[*(?P<flag>.+)\])*")
+    r"^(\s|\t)*unset(\s|\t)+(?P<varname>[^\s\[\]]+)(\[(?P<flag>[^\[\]]+)\])?")
 __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
-- 
2.43.0


From 6029b1b14d3b14f68d0f521dfb111e5f260896bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 03/75] fix: link already parsed files against every file
 pulling them in

A bbclass (or any file not being a bb, inc or conf) is only parsed once, but
the early return also skipped the link, so only the first recipe inheriting
a class got to see its items.
---
 oelint_parser/cls_stash.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 19c734c..960640e 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -169,9 +169,12 @@ class Stash():
         """
         _file = os.path.abspath(_file)
         _, _ext = os.path.splitext(_file)
-        if _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]:
-            return []
-        if _file in self.__seen_classes:
+        if _file in self.__seen_classes or (
+                _file in self.__seen_files and _ext not in [".inc", ".bb", ".conf", ".bbclass"]):
+            if forcedLink:
+                # already parsed, but still needs to be linked
+                self.__map.setdefault(forcedLink, []).append(_file)
+                self._clear_cached()
             return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
-- 
2.43.0


From afb85ef0b66ff2064b8dbacb4ce983a194d30de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:34 +0000
Subject: [PATCH 04/75] fix: don't recurse endlessly on circular includes

---
 oelint_parser/cls_stash.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 960640e..a055d95 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -130,6 +130,7 @@ class Stash():
         self.__list = []
         self.__seen_files = set()
         self.__seen_classes = set()
+        self.__active_files = []
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -176,16 +177,25 @@ class Stash():
                 self.__map.setdefault(forcedLink, []).append(_file)
                 self._clear_cached()
             return []
+        if _file in self.__active_files:
+            # circular include
+            if forcedLink:
+                self.__map.setdefault(forcedLink, []).append(_file)
+            return []
         if not self.__quiet:
             print("Parsing {file}".format(file=_file))
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
-        res = get_items(self,
-                        _file,
-                        lineOffset=lineOffset,
-                        new_style_override_syntax=self.__new_style_override_syntax,
-                        negative=self.__negative_inline)
+        self.__active_files.append(_file)
+        try:
+            res = get_items(self,
+                            _file,
+                            lineOffset=lineOffset,
+                            new_style_override_syntax=self.__new_style_override_syntax,
+                            negative=self.__negative_inline)
+        finally:
+            self.__active_files.pop()
         if _file not in self.__map:
             self.__map[_file] = []
         if forcedLink:
-- 
2.43.0


From 77d79e96c425f0b0988a82cf25b57d1d79a49dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:09 +0000
Subject: [PATCH 05/75] fix: only resolve includes and classes to regular files

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index a055d95..e25d6fd 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -634,7 +634,7 @@ class Stash():
         Returns:
             str -- path to found file or None
         """
-        if os.path.exists(os.path.join(localdir, name)):
+        if os.path.isfile(os.path.join(localdir, name)):
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
@@ -642,7 +642,7 @@ class Stash():
                 break
             _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                if os.path.exists(os.path.join(_curdir, name)):
+                if os.path.isfile(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
-- 
2.43.0


From 0226cd300678ef8adad7d96f63a19c9e8b1b63cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 06/75] fix: don't crash on unreadable files in
 oe.utils.read_file

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index e25d6fd..7b5a109 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -813,7 +813,7 @@ class Stash():
                     "file"), spare=spare, seen=seen).strip("'\"")
                 with open(_fullpath) as i:
                     res = i.read()
-            except (FileNotFoundError, PermissionError, NotADirectoryError):
+            except (OSError, ValueError):
                 res = ''
         return res
 
-- 
2.43.0


From 6a5a88d03b3aa7a06bfe066443e76f87def52c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:34 +0000
Subject: [PATCH 07/75] fix: return query results in a reproducible order

---
 oelint_parser/cls_stash.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7b5a109..3d49284 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -344,7 +344,7 @@ class Stash():
         Returns:
             List[str]: List of configuration files
         """
-        return list({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
+        return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
     @functools.cache  # noqa: B019
     def GetBBClasses(self) -> List[str]:
@@ -398,7 +398,7 @@ class Stash():
         """
         if not filename:
             return []
-        return [x.Origin for x in self.__get_items_by_file(frozenset(self.__list), filename) if x.Origin != filename]
+        return [x.Origin for x in self.__get_items_by_file(tuple(self.__list), filename) if x.Origin != filename]
 
     def Reduce(self,
                in_list: Iterable[Item],
@@ -435,7 +435,7 @@ class Stash():
         if attribute:
             in_list = self.__get_items_by_attribute(
                 tuple(in_list), tuple(attribute), tuple(attributeValue))
-        return sorted(set(in_list), key=lambda x: x.Line)
+        return sorted(dict.fromkeys(in_list), key=lambda x: x.Line)
 
     def GetItemsFor(self,
                     filename: str = None,
-- 
2.43.0


From 5d55ef2b2e95475ead81d243a48f522e7fd8e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 08/75] fix: reset all stash dependent caches

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 3d49284..7d455ce 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -141,13 +141,16 @@ class Stash():
 
     def _clear_cached(self):
         """Clear cached values"""
+        self.GetBBClasses.cache_clear()
         self.GetConfFiles.cache_clear()
         self.GetFiles.cache_clear()
         self.GetLinksForFile.cache_clear()
         self.GetLoneAppends.cache_clear()
+        self.GetPackagesDynamic.cache_clear()
         self.GetRecipes.cache_clear()
         self.GetValidNamedResources.cache_clear()
         self.GetValidPackageNames.cache_clear()
+        self.IsDynamicPackage.cache_clear()
         self.IsImage.cache_clear()
         self.IsPackageGroup.cache_clear()
         self.__get_items_by_attribute.cache_clear()
-- 
2.43.0


From 3faed6fa136224acb0e2128bec0278b2aa8d6e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 09/75] fix: make fingerprint independent of the hash seed

---
 oelint_parser/cls_item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 5c9248e..472d676 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -258,7 +258,9 @@ class Item():
         return res
 
     def __repr__(self) -> str:
-        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=self.GetAttributes())
+        # sets don't have a reproducible order
+        attr = {k: sorted(v) if isinstance(v, set) else v for k, v in self.GetAttributes().items()}
+        return "{name} -- {attr}\n".format(name=self.__class__.__name__, attr=attr)
 
 
 class Variable(Item):
-- 
2.43.0


From 5ac4e5a2c9b66b31815d328990a9dba35e602901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:07 +0000
Subject: [PATCH 10/75] fix: restore every unresolved inline block at its own
 position

---
 oelint_parser/cls_stash.py | 5 +++--
 oelint_parser/parser.py    | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 7d455ce..73ccfaa 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -741,8 +741,9 @@ class Stash():
 
     def _ReverseInlineBlock(self, varref: Variable) -> str:
         res = varref.VarValueStripped
-        for item in varref.InlineBlocks:
-            res = res.replace(*reversed(item), 1)
+        for block, replacement in varref.InlineBlocks:
+            if replacement == INLINE_BLOCK:
+                res = res.replace(replacement, block, 1)
         return res
 
     def ExpandTerm(self, _file: str, value: str, spare: List[str] = None, seen: List[str] = None, objref: Variable = None) -> str:
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index cc98331..8cc845b 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -178,7 +178,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
         _repl = inlinerep(repl, negative)
         if _repl is None:
             _repl = INLINE_BLOCK
-        raw_line = raw_line.replace(repl, _repl)
+        raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
-- 
2.43.0


From eea99240ba293444367bc872dbc1de5cae6e5944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 11/75] fix: evaluate assignments regardless of the spacing
 around the operator

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 73ccfaa..13c8de8 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -511,7 +511,7 @@ class Stash():
                 continue
             if not item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            varop = " {op} ".format(op=item.VarOp.strip())
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-- 
2.43.0


From aaf4f976636fdbff4e212eeb308c5f5734287cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:42 +0000
Subject: [PATCH 12/75] fix: apply the variable operator to values with
 unresolved inline blocks

---
 oelint_parser/cls_stash.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 13c8de8..d26e9a5 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -515,65 +515,64 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-            if INLINE_BLOCK in item.VarValueStripped:
-                _exp[name] = self._ReverseInlineBlock(item)
-            elif varop in [" = ", " := "]:
-                _exp[name] = item.VarValueStripped
+            value = self._ReverseInlineBlock(item)
+            if varop in [" = ", " := "]:
+                _exp[name] = value
             elif varop == " ?= " and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == " ??= " and _exp[name] is None:
-                _exp[name] = item.VarValueStripped
+                _exp[name] = value
             elif varop == " += ":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += " " + item.VarValueStripped
+                _exp[name] += " " + value
             elif varop == " =+ ":
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + " " + _exp[name]
+                _exp[name] = value + " " + _exp[name]
             elif varop in [" .= "]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif varop in [" =. "]:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            value = self._ReverseInlineBlock(item)
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] += item.VarValueStripped
+                _exp[name] += value
             elif "prepend" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = item.VarValueStripped + _exp[name]
+                _exp[name] = value + _exp[name]
         # and now for the run with remove
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
             if item.IsImmediateModify():
                 continue
-            varop = item.VarOp
+            value = self._ReverseInlineBlock(item)
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(item.VarValueStripped, "")
+                _exp[name] = _exp[name].replace(value, "")
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From 1e19fc5e560ca7e1a5ae93c7a460c6e60650673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:10 +0000
Subject: [PATCH 13/75] fix: let remove operations only remove whole words

---
 oelint_parser/cls_stash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d26e9a5..1beeef7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -548,10 +548,7 @@ class Stash():
             name = item.VarNameCompleteNoModifiers
             if name not in _exp.keys():
                 _exp[name] = None
-                if _exp[name] is None:
-                    _exp[name] = ""
-                _exp[name] += value
-            elif "append" in item.SubItems:
+            if "append" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] += value
@@ -572,7 +569,10 @@ class Stash():
             if "remove" in item.SubItems:
                 if _exp[name] is None:
                     _exp[name] = ""
-                _exp[name] = _exp[name].replace(value, "")
+                # only whole words are removed
+                _remove = Item.safe_linesplit(value)
+                _exp[name] = " ".join(
+                    x for x in Item.safe_linesplit(_exp[name]) if x not in _remove)
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
-- 
2.43.0


From b678d47020243d1bbee33259f84b56efaf2dd66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:21 +0000
Subject: [PATCH 14/75] fix: treat ??= as the weakest assignment

---
 oelint_parser/cls_stash.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 1beeef7..347e27d 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -502,10 +502,12 @@ class Stash():
             "BPN": self.GuessBaseRecipeName(filename),
         }
         _exp = {**_exp, **CONSTANTS.SetsBase}
+        _weak = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 if item.Flag:
                     continue
+                _weak.pop(item.VarName, None)
                 if item.VarName in _exp:
                     del _exp[item.VarName]
                 continue
@@ -520,8 +522,9 @@ class Stash():
                 _exp[name] = value
             elif varop == " ?= " and _exp[name] is None:
                 _exp[name] = value
-            elif varop == " ??= " and _exp[name] is None:
-                _exp[name] = value
+            elif varop == " ??= ":
+                # weakest of all assignments, the last one wins
+                _weak[name] = value
             elif varop == " += ":
                 if _exp[name] is None:
                     _exp[name] = ""
@@ -538,6 +541,9 @@ class Stash():
                 if _exp[name] is None:
                     _exp[name] = ""
                 _exp[name] = value + _exp[name]
+        for name, value in _weak.items():
+            if _exp.get(name) is None:
+                _exp[name] = value
         # and now for a second run with special append
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
-- 
2.43.0


From c27f8a99d0c9f621060bcd28ea27d325e7e4d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:56 +0000
Subject: [PATCH 15/75] fix: match bbappend files by their literal and complete
 name

---
 oelint_parser/cls_stash.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 347e27d..89ac22b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -208,11 +208,9 @@ class Stash():
 
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            bn_this = os.path.basename(_file).replace(
-                ".bbappend", ".bb$").replace("%", ".*")
             _maxline = 0
             for x in self.__map:
-                if RegexRpl.match(bn_this, os.path.basename(x)):
+                if self._is_append_for(_file, x):
                     self.__map[x].append(_file)
                     _maxline = max(_maxline, max(
                         (i.Line for i in self.__list if i.Origin == x), default=0))
@@ -220,14 +218,11 @@ class Stash():
                 # pretend that we are adding the file to the end of the original
                 r.Line += _maxline
         elif _file.endswith(".bb"):
-            bn_this = os.path.basename(_file).replace(".bb", "")
             _maxline = max((r.Line for r in res), default=0)
             for item in self.__list:
                 if not item.Origin.endswith(".bbappend"):
                     continue
-                bn_that = os.path.basename(item.Origin).replace(
-                    ".bbappend", "").replace("%", ".*")
-                if RegexRpl.match(bn_that, bn_this):
+                if self._is_append_for(item.Origin, _file):
                     self.__map[_file].append(item.Origin)
                     # pretend that we are adding that bbappend to the end of this recipe
                     item.Line = max(item.Line, item.InFileLine + _maxline)
@@ -244,6 +239,12 @@ class Stash():
 
         return res
 
+    @staticmethod
+    def _is_append_for(append: str, recipe: str) -> bool:
+        _name, _ = os.path.splitext(os.path.basename(append))
+        _pattern = ".*".join(regex.escape(x) for x in _name.split("%"))
+        return bool(RegexRpl.match(_pattern + r"\.bb$", os.path.basename(recipe)))
+
     @property
     def FingerPrint(self) -> str:
         """Get the SHA1 fingerprint of the current Stash
-- 
2.43.0


From eb54140834eb0da5df8fbde518aa46a204547bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:03 +0000
Subject: [PATCH 16/75] fix: keep overall line numbers in processing order

---
 oelint_parser/cls_stash.py | 52 +++++++++++++++++++++++++++-----------
 oelint_parser/parser.py    | 12 ++++-----
 2 files changed, 43 insertions(+), 21 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 89ac22b..b2afda1 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -131,6 +131,7 @@ class Stash():
         self.__seen_files = set()
         self.__seen_classes = set()
         self.__active_files = []
+        self.__parsed_items = {}
         self.__map = {}
         self.__quiet = quiet
         self.__new_style_override_syntax = new_style_override_syntax
@@ -190,6 +191,12 @@ class Stash():
         self.__seen_files.add(_file)
         if _ext in [".bbclass"]:
             self.__seen_classes.add(_file)
+        _appended = []
+        if _file.endswith(".bbappend"):
+            # pretend that we are adding the file to the end of the original
+            _appended = [x for x in self.__map if self._is_append_for(_file, x)]
+            lineOffset += max((self.GetLastLine(x) for x in _appended), default=0)
+        _first = len(self.__list)
         self.__active_files.append(_file)
         try:
             res = get_items(self,
@@ -206,26 +213,30 @@ class Stash():
                 self.__map[forcedLink] = []
             self.__map[forcedLink].append(_file)
 
+        _parsed = self.__list[_first:] + res
+        self.__parsed_items[_file] = _parsed[:]
+
         # Match bbappends to bbs
         if _file.endswith(".bbappend"):
-            _maxline = 0
-            for x in self.__map:
-                if self._is_append_for(_file, x):
-                    self.__map[x].append(_file)
-                    _maxline = max(_maxline, max(
-                        (i.Line for i in self.__list if i.Origin == x), default=0))
-            for r in res:
-                # pretend that we are adding the file to the end of the original
-                r.Line += _maxline
+            for x in _appended:
+                self.__map[x].append(_file)
+                self.__parsed_items.setdefault(x, []).extend(_parsed)
         elif _file.endswith(".bb"):
-            _maxline = max((r.Line for r in res), default=0)
-            for item in self.__list:
-                if not item.Origin.endswith(".bbappend"):
+            _shift = 0
+            for x, items in self.__parsed_items.items():
+                if not x.endswith(".bbappend"):
                     continue
-                if self._is_append_for(item.Origin, _file):
-                    self.__map[_file].append(item.Origin)
+                _matches = self._is_append_for(x, _file)
+                if _matches:
+                    self.__map[_file].append(x)
                     # pretend that we are adding that bbappend to the end of this recipe
-                    item.Line = max(item.Line, item.InFileLine + _maxline)
+                    _maxline = self.GetLastLine(_file)
+                    _shift = max(_shift, _maxline + 1 - min((i.Line for i in items), default=_maxline + 1))
+                for item in items:
+                    # keep the order among the bbappends
+                    item.Line += _shift
+                if _matches:
+                    self.__parsed_items[_file] += items
 
         self.AddDistroMachineFromLayer(_file)
         self.__list += res
@@ -254,6 +265,17 @@ class Stash():
         """
         return self.__fingerprint.hexdigest()
 
+    def GetLastLine(self, _file: str) -> int:
+        """Get the last overall line taken by a file and everything it pulls in
+
+        Arguments:
+            _file {str} -- Full path to file
+
+        Returns:
+            int -- highest line number of all items parsed along with the file
+        """
+        return max((x.Line for x in self.__parsed_items.get(os.path.abspath(_file), [])), default=0)
+
     def Append(self, item: Union[Item, Iterable[Item]]) -> None:
         """appends one or mote items to the stash
 
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 8cc845b..f7e5460 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -345,9 +345,9 @@ def get_items(stash: object,
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                             if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                                includeOffset = stash.GetLastLine(_path) - line["line"]
                     parameter['statement'] = m.group("statement")
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -372,9 +372,9 @@ def get_items(stash: object,
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
-                                _path, lineOffset=line["line"], forcedLink=_file)
+                                _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                             if any(tmp):
-                                includeOffset += max([x.InFileLine for x in tmp])
+                                includeOffset = stash.GetLastLine(_path) - line["line"]
                     parameter['statement'] = 'INHERIT'
                     parameter['classes'] = m.group("inhname")
                     parameter['inherit_file_paths'] = _found_paths
@@ -436,9 +436,9 @@ def get_items(stash: object,
                         if includename in CONSTANTS.IncludeIgnore:
                             continue
                         tmp = stash.AddFile(
-                            _path, lineOffset=line["line"], forcedLink=_file)
+                            _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                         if any(tmp):
-                            includeOffset += max([x.InFileLine for x in tmp])
+                            includeOffset = stash.GetLastLine(_path) - line["line"]
                     parameter['incname'] = m.group("incname")
                     parameter['fileincluded'] = _path or ''
                     parameter['statement'] = m.group("statement")
-- 
2.43.0


From 6b1e4820d090f769da4c6484813457a2fbc86b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:38 +0000
Subject: [PATCH 17/75] fix: make extending, concatenating, slicing and copying
 a StashList work

---
 oelint_parser/cls_stash.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index b2afda1..e000bbb 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -39,13 +39,38 @@ class Stash():
             """
             self._stash = stash
             super().__init__()
-            self.data = items
+            self.data = list(items)
 
         def __setitem__(self, index: int, item: Item) -> None:
             self.data[index] = item
 
         def __iadd__(self, __value: Iterable) -> List[Item]:
-            return self.data.__iadd__(__value)
+            self.data.__iadd__(__value)
+            return self
+
+        def __getitem__(self, index: Union[int, slice]) -> Union[Item, 'Stash.StashList']:
+            if isinstance(index, slice):
+                return Stash.StashList(self._stash, self.data[index])
+            return self.data[index]
+
+        def __add__(self, other: Iterable[Item]) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, self.data + list(other))
+
+        def __radd__(self, other: Iterable[Item]) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, list(other) + self.data)
+
+        def __mul__(self, n: int) -> 'Stash.StashList':
+            return Stash.StashList(self._stash, self.data * n)
+
+        __rmul__ = __mul__
+
+        def copy(self) -> 'Stash.StashList':
+            """Get a shallow copy of the list
+
+            Returns:
+                Stash.StashList: copy of the list
+            """
+            return Stash.StashList(self._stash, self.data[:])
 
         def insert(self, index: int, item: Item) -> None:
             """Insert into list
@@ -74,8 +99,7 @@ class Stash():
             Args:
                 other (Stash.StashList): Other stash other
             """
-            if isinstance(other, type(Stash.StashList)):
-                self.data.extend(other.data)
+            self.data.extend(other)
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
-- 
2.43.0


From 4b307bdeab2dfbb30f7ee0c8f5969e6b90aa5306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:52 +0000
Subject: [PATCH 18/75] fix: don't share state with the dictionaries passed to
 Constants

---
 oelint_parser/constants.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index 5b1abdb..fb3cbe7 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -1,3 +1,4 @@
+import copy
 import json
 import os
 import sys
@@ -16,7 +17,7 @@ class Constants():
         Args:
             file_ (str, optional): File to load. Defaults to DEFAULT_DB.
         """
-        self.__db = file_ if isinstance(file_, dict) else self.__load_db(file_)
+        self.__db = copy.deepcopy(file_) if isinstance(file_, dict) else self.__load_db(file_)
 
     def __load_db(self, path: str) -> dict:
         try:
@@ -56,7 +57,7 @@ class Constants():
                 else:
                     a[k] += v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     def RemoveConstants(self, _dict: dict) -> None:
         """Remove constants from the existing
@@ -73,7 +74,7 @@ class Constants():
                 else:
                     a[k] = [x for x in a[k] if x not in v]
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     def OverrideConstants(self, _dict: dict) -> None:
         """Override constants in the existing db
@@ -90,7 +91,7 @@ class Constants():
                 else:
                     a[k] = v
             return a
-        self.__db = dict_merge(self.__db, _dict)
+        self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
     @property
     def FunctionsKnown(self) -> List[str]:
-- 
2.43.0


From b5375e20f700d16803118b1a24af857fec9d5350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:22 +0000
Subject: [PATCH 19/75] fix: handle non-list values when removing and looking
 up constants

---
 oelint_parser/constants.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/constants.py b/oelint_parser/constants.py
index fb3cbe7..ead9ce3 100644
--- a/oelint_parser/constants.py
+++ b/oelint_parser/constants.py
@@ -39,7 +39,7 @@ class Constants():
         paths = path.rstrip('/').split('/')
         data = self.__db
         for _, value in enumerate(paths):
-            data = data.get(value, {})
+            data = data.get(value, {}) if isinstance(data, dict) else {}
         return data
 
     def AddConstants(self, _dict: dict) -> None:
@@ -72,7 +72,10 @@ class Constants():
                 elif isinstance(b[k], dict):
                     dict_merge(a[k], b[k])
                 else:
-                    a[k] = [x for x in a[k] if x not in v]
+                    if isinstance(a[k], list):
+                        a[k] = [x for x in a[k] if x not in v]
+                    else:
+                        del a[k]
             return a
         self.__db = dict_merge(self.__db, copy.deepcopy(_dict))
 
-- 
2.43.0


From 398249fc0c3d974e0f3c2a08c66644401b971155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 20/75] fix: honor the flags passed to RegexRpl.match

---
 oelint_parser/parser.py    | 2 +-
 oelint_parser/rpl_regex.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index f7e5460..2e1e6ab 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -289,7 +289,7 @@ def get_items(stash: object,
             'realraw': line['realraw'],
         }
         for k, v in _order.items():
-            m = RegexRpl.match(v, line["cnt"], regex.regex.MULTILINE)
+            m = RegexRpl.match(v, line["cnt"])
             if m:
                 if k == "python":
                     parameter['name'] = m.group("funcname")
diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index d633e80..0308457 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -61,7 +61,7 @@ class RegexRpl():
             Match: Match object or None
         """
         try:
-            return regex.match(pattern, string, timeout=timeout, **kwargs)
+            return regex.match(pattern, string, flags=flags, timeout=timeout, **kwargs)
         except TimeoutError:
             return default
 
-- 
2.43.0


From dd0bb3eead5579d1e600d62672159f66ffcfaed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:03 +0000
Subject: [PATCH 21/75] fix: guard RegexRpl.finditer against timeouts while
 iterating

---
 oelint_parser/rpl_regex.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/oelint_parser/rpl_regex.py b/oelint_parser/rpl_regex.py
index 0308457..0c26997 100644
--- a/oelint_parser/rpl_regex.py
+++ b/oelint_parser/rpl_regex.py
@@ -1,6 +1,6 @@
-from typing import List, Union
+from typing import Iterator, List, Union
 
-from regex import Match, Scanner, regex
+from regex import Match, regex
 
 
 class RegexRpl():
@@ -87,7 +87,7 @@ class RegexRpl():
             return default
 
     @staticmethod
-    def finditer(pattern: str, string: str, flags: int = 0, timeout: int = 5, default: object = None, **kwargs) -> Scanner:
+    def finditer(pattern: str, string: str, flags: int = 0, timeout: int = 5, default: object = (), **kwargs) -> Iterator[Match]:
         """replacement for re.finditer
 
         Args:
@@ -95,12 +95,13 @@ class RegexRpl():
             string (str): input string
             flags (int, optional): flags modifying expression behaviour
             timeout (int, optional): Timeout for operation. On timeout `default` will be returned. Defaults to 5.
-            default (_type_, optional): Default to return on timeout. Defaults to None.
+            default (_type_, optional): Default to return on timeout. Defaults to an empty iterable.
 
         Returns:
-            Scanner: Scanner object or None
+            Iterator: iterator over all matches or `default`
         """
         try:
-            return regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)
+            # the timeout is raised while iterating
+            return iter(list(regex.finditer(pattern, string, flags=flags, timeout=timeout, **kwargs)))
         except TimeoutError:
             return default
-- 
2.43.0


From bf698ee739d813995e79690ece57108a395477cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:31 +0000
Subject: [PATCH 22/75] fix: split inherited classes on any whitespace

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 2e1e6ab..64317c2 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -330,7 +330,7 @@ def get_items(stash: object,
                 elif k == "inherit":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
@@ -357,7 +357,7 @@ def get_items(stash: object,
                 elif k == "inherit_glob":
                     inhname = stash.ExpandTerm(_file, m.group("inhname"))
                     _found_paths = set()
-                    for inh_item in [x for x in inhname.split(' ') if x]:
+                    for inh_item in Item.safe_linesplit(inhname):
                         if not inh_item.endswith(".bbclass"):
                             inh_item += ".bbclass"
                         _path = None
-- 
2.43.0


From c370289f84b337fdd00f4b85947983a0620b5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:43 +0000
Subject: [PATCH 23/75] fix: check every inherited class against the ignore
 list

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 64317c2..ecb078f 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -341,7 +341,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if os.path.splitext(inh_item)[0] in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
@@ -368,7 +368,7 @@ def get_items(stash: object,
                             if _path:
                                 break
                         if _path:
-                            if inhname in CONSTANTS.ClassIgnore:
+                            if os.path.splitext(inh_item)[0] in CONSTANTS.ClassIgnore:
                                 continue
                             _found_paths.add(_path)
                             tmp = stash.AddFile(
-- 
2.43.0


From befb486d4d2e597b5836dd94c3c088ad26240b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:56 +0000
Subject: [PATCH 24/75] fix: keep the full value of SRC_URI options containing
 =

---
 oelint_parser/cls_stash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index e000bbb..10ca628 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -732,7 +732,7 @@ class Stash():
             _tmp += "/" + _url.path.lstrip("/")
         _path = _tmp.split(";")[0]
         _options = _raw.split(";")[1:] if ";" in _raw else []
-        _parsed_opt = {x.split("=")[0]: x.split("=")[1]
+        _parsed_opt = {x.split("=", 1)[0]: x.split("=", 1)[1]
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-- 
2.43.0


From b705d162c68082c660cde507ce4aa0e384d126bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:22 +0000
Subject: [PATCH 25/75] fix: consider the directory of a file itself as layer
 root

---
 oelint_parser/cls_stash.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 10ca628..4403156 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -671,11 +671,11 @@ class Stash():
         """
         _curdir = os.path.dirname(name) if os.path.isfile(name) else name
         while os.path.isdir(_curdir):
+            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
+                return _curdir
             if _curdir == "/":
                 break
             _curdir = os.path.dirname(_curdir)
-            if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
-                return _curdir
         return ""
 
     @functools.cache  # noqa: B019
@@ -693,14 +693,14 @@ class Stash():
             return os.path.join(localdir, name)
         _curdir = localdir
         while os.path.isdir(_curdir):
-            if _curdir == "/":
-                break
-            _curdir = os.path.dirname(_curdir)
             if os.path.exists(os.path.join(_curdir, "conf/layer.conf")):
                 if os.path.isfile(os.path.join(_curdir, name)):
                     return os.path.join(_curdir, name)
                 else:
                     break
+            if _curdir == "/":
+                break
+            _curdir = os.path.dirname(_curdir)
         return ""
 
     def _replace_with_known_mirrors(self, _in: dict) -> dict:
-- 
2.43.0


From fc994c75a42003d846a7c2f04bb9e45ffa23104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:31 +0000
Subject: [PATCH 26/75] fix: don't treat comments as the start of a function

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index ecb078f..76c297d 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -118,7 +118,7 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
                 res += line
                 _, line = next(_iter, (0, ''))
             res += line
-        elif RegexRpl.match(__func_start_regexp__, res):
+        elif not RegexRpl.match(__regex_comments, res) and RegexRpl.match(__func_start_regexp__, res):
             _, line = next(_iter, (0, ''))
             stopiter = False
             scope_level = 0
-- 
2.43.0


From 5c5e6e176a7f8b410ccabc9b24fd798bc491499f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:58 +0000
Subject: [PATCH 27/75] fix: don't treat variable values as the start of a
 function

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 76c297d..0f01082 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -60,7 +60,7 @@ __regex_addfragments = regex.compile(
     r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
 __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
-    r".*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
+    r"[^\"'#=]*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
 
-- 
2.43.0


From 727f14b55d0b79f964b3d617ada26093b3b7a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 28/75] fix: don't mistake function names starting with python
 or fakeroot

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 0f01082..f1d090c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -31,7 +31,7 @@ INLINE_BLOCK = "!!!inlineblock!!!"
 __regex_var = regex.compile(
     r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
-    r"^((?P<py>python)\s*|(?P<fr>fakeroot\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
+    r"^((?P<py>python)(?=\s|\()\s*|(?P<fr>fakeroot(?=\s)\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
     r"^(\s|\t)*(?P<statement>inherit(_defer)*)(\s+|\t+)(?P<inhname>.+)")
 __regex_inherit_glob = regex.compile(
-- 
2.43.0


From 1263b0e750ebf34a8771f366e1f775c43fd35cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:02 +0000
Subject: [PATCH 29/75] fix: accept all characters bitbake allows in variable
 and flag names

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index f1d090c..f616e8c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -29,7 +29,7 @@ from oelint_parser.constants import CONSTANTS
 INLINE_BLOCK = "!!!inlineblock!!!"
 
 __regex_var = regex.compile(
-    r"^(?P<varname>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(?P<varname>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_func = regex.compile(
     r"^((?P<py>python)(?=\s|\()\s*|(?P<fr>fakeroot(?=\s)\s*))*(?P<func>[\w\.\-\+\{\}:\$]+)?\s*\(\s*\)\s*\{(?P<funcbody>.*)\s*\}")
 __regex_inherit = regex.compile(
@@ -50,7 +50,7 @@ __regex_addtask = regex.compile(
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
+    r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_|\+)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
     r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
-- 
2.43.0


From bb55b24835647915fa6b89acae88f22870a7cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:28 +0000
Subject: [PATCH 30/75] fix: accept upper case characters in python function
 names

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index f616e8c..034b216 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -42,7 +42,7 @@ __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
-    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[a-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
+    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
 __regex_addtask = regex.compile(
-- 
2.43.0


From efe8b150a3eeb2e5af3c2e4865f7d56efbce3428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:55 +0000
Subject: [PATCH 31/75] fix: accept + in the names of included files

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 034b216..96cb073 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+]+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From fa06009cbb280c7e65834a56d311346d9dc90c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 32/75] fix: end python functions at any following statement

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 96cb073..4b928c1 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -62,7 +62,7 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"[^\"'#=]*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#]+")
+__valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#_$]+")
 
 
 def get_full_scope(_string: str, offset: int, _sstart: int, _send: int) -> str:
-- 
2.43.0


From d5a2d0d06b8163860e14cb546908c1b520489e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 33/75] fix: get the right name and value from export
 statements

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 4b928c1..0ce4d46 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -37,7 +37,7 @@ __regex_inherit = regex.compile(
 __regex_inherit_glob = regex.compile(
     r"^INHERIT(?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)('|\")(?P<inhname>.*)('|\")")
 __regex_export_wval = regex.compile(
-    r"^\s*?export(\s+|\t+)(?P<name>.+)\s*=\s*\"(?P<value>.*)\"")
+    r"^\s*?export(\s+|\t+)(?P<name>\S+?)\s*[?:+.]*=[+.]*\s*(?P<quote>\"|')(?P<value>.*)(?P=quote)")
 __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
-- 
2.43.0


From 953da285f6c9e09e3d801aaa0333f4b0587f5058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:21 +0000
Subject: [PATCH 34/75] fix: keep spared variables unexpanded in nested terms

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 4403156..1951d6f 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -832,7 +832,7 @@ class Stash():
                         cnt = self._ReverseInlineBlock(_comp[0])
                     else:
                         cnt = _comp[0].VarValueStripped
-                    _rpl = self.ExpandTerm(_file, cnt, seen=seen)
+                    _rpl = self.ExpandTerm(_file, cnt, spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 res = res.replace(m.group(0), _rpl)
             elif m.group(1) in baseset:
@@ -841,7 +841,7 @@ class Stash():
                 elif m.group(1) in baseset:
                     seen[m.group(1)] = ""
                     _rpl = self.ExpandTerm(
-                        _file, baseset[m.group(1)], seen=seen)
+                        _file, baseset[m.group(1)], spare=spare, seen=seen)
                     seen[m.group(1)] = _rpl
                 else:
                     _rpl = m.group(1)
-- 
2.43.0


From 2f8b3414c37a58b2429f2a4df65191a6c749a277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:18 +0000
Subject: [PATCH 35/75] fix: don't take braces in function names as start of
 the body

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 472d676..7bd8a20 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -632,7 +632,7 @@ class Function(Item):
             self.OverrideDelimiter) if x]
         self.__FuncBody = body
         self.__FuncBodyRaw = textwrap.dedent(
-            self.Raw[self.Raw.find("{") + 1:].rstrip().rstrip("}"))
+            self.Raw[self.Raw.find("{", self.Raw.find(")")) + 1:].rstrip().rstrip("}"))
 
     @property
     def IsPython(self) -> bool:
-- 
2.43.0


From ced65959087e896a26dfb9128cf411c36265cd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:58 +0000
Subject: [PATCH 36/75] fix: don't multiply duplicate links on Finalize

---
 oelint_parser/cls_stash.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 1951d6f..967a052 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -350,10 +350,12 @@ class Stash():
         """
         # cross link all the files
         for k in self.__map.keys():
-            for item in self.__map[k][:]:
-                self.__map[k] += self.__map[item]
-            self.__map[k].append(k)
-            self.__map[k] = list(set(self.__map[k]))
+            # a set, as the number of duplicates would multiply otherwise
+            links = set(self.__map[k])
+            for item in set(self.__map[k]):
+                links.update(self.__map[item])
+            links.add(k)
+            self.__map[k] = list(links)
 
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
-- 
2.43.0


From b4f9428ee363b41ff68ced99651e3e356a85d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:33 +0000
Subject: [PATCH 37/75] fix: ignore blanks after the closing quote of a value

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 7bd8a20..71d478a 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -414,7 +414,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip('"')
+        _x = override.strip('"') or self.VarValue.strip().strip('"')
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
@@ -865,7 +865,7 @@ class FlagAssignment(Item):
         Returns:
             str: value set
         """
-        return self.__value.strip('"')
+        return self.__value.strip().strip('"')
 
     def get_items(self) -> Tuple[str, str, str, str]:
         """Get items
-- 
2.43.0


From d494790b2aff68f71b2b4278c0dfc029205798af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 38/75] fix: split continued lines starting with x like any
 other

---
 oelint_parser/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 0ce4d46..d72e4ac 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -183,7 +183,8 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
            "inline_blocks": inline_blocks,
-           "cnt": raw_line.replace("\n", "").replace("\\", chr(0x1b))}
+           # keep words at the start of a continued line apart from a \x escape
+           "cnt": raw_line.replace("\\\nx", "\\ x").replace("\n", "").replace("\\", chr(0x1b))}
     return (res, nextbuf, length)
 
 
-- 
2.43.0


From 4078d03eb2e383198f9299245ac052412e97f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 39/75] fix: split continued addtask and EXPORT_FUNCTIONS
 statements

---
 oelint_parser/cls_item.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 71d478a..1c3f938 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -908,7 +908,7 @@ class FunctionExports(Item):
         Returns:
             list -- function names
         """
-        return [x for x in self.__FuncNames.split(" ") if x]
+        return self._safe_linesplit(self.__FuncNames)
 
     def get_items_unaliased(self) -> List[str]:
         """Get items with their bbclass scope names
@@ -947,8 +947,8 @@ class TaskAdd(Item):
         """
         super().__init__(*args, **kwargs)
         self.__FuncName = name
-        self.__Before = [x for x in (before or "").split(" ") if x]
-        self.__After = [x for x in (after or "").split(" ") if x]
+        self.__Before = self._safe_linesplit(before or "")
+        self.__After = self._safe_linesplit(after or "")
         self.__Comment = comment or ''
 
     @property
-- 
2.43.0


From b39e8a3d77c5e10c51180dfb926ac00e89500a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:36 +0000
Subject: [PATCH 40/75] fix: unset of linked files does not apply without links
 in ExpandVar

---
 oelint_parser/cls_stash.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 967a052..68ac3c7 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -538,7 +538,8 @@ class Stash():
                                 nolink=nolink)
 
         _res += self.GetItemsFor(filename=filename,
-                                 classifier=Unset.CLASSIFIER)
+                                 classifier=Unset.CLASSIFIER,
+                                 nolink=nolink)
 
         if filename is None:
             if _res:
-- 
2.43.0


From 17a9de0b26d61484dd9f9ec0bc53ec19e4a70378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:49 +0000
Subject: [PATCH 41/75] fix: remove from the expanded value in ExpandVar

---
 oelint_parser/cls_stash.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 68ac3c7..a9549ce 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -613,6 +613,7 @@ class Stash():
                     _exp[name] = ""
                 _exp[name] = value + _exp[name]
         # and now for the run with remove
+        _remove = {}
         for item in sorted(_res, key=lambda x: x.Line):
             if isinstance(item, Unset):
                 continue
@@ -623,20 +624,17 @@ class Stash():
             if name not in _exp.keys():
                 _exp[name] = None
             if "remove" in item.SubItems:
-                if _exp[name] is None:
-                    _exp[name] = ""
-                # only whole words are removed
-                _remove = Item.safe_linesplit(value)
-                _exp[name] = " ".join(
-                    x for x in Item.safe_linesplit(_exp[name]) if x not in _remove)
+                # only whole words of the expanded value are removed
+                _remove.setdefault(name, []).extend(
+                    Item.safe_linesplit(self.ExpandTerm(filename, value)))
         # final run and explode the settings
         _finalexp = {}
         for k, v in _exp.items():
             _newkey = self.ExpandTerm(filename, k)
             if _newkey not in _finalexp:
                 _finalexp[_newkey] = []
-            _finalexp[_newkey] += Item.safe_linesplit(
-                self.ExpandTerm(filename, v or ""))
+            _finalexp[_newkey] += [x for x in Item.safe_linesplit(
+                self.ExpandTerm(filename, v or "")) if x not in _remove.get(k, [])]
         return _finalexp
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From e09c07c40301124fa0d459c9aeda79ba549c8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:36 +0000
Subject: [PATCH 42/75] fix: report empty bbappends without a recipe as lone

---
 oelint_parser/cls_stash.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index a9549ce..cf42d46 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -381,8 +381,7 @@ class Stash():
             list -- list of bbappend without a matching bb
         """
         __linked_appends = set()
-        __appends = {
-            x.Origin for x in self.__list if x.Origin.endswith('.bbappend')}
+        __appends = {x for x in self.__map if x.endswith('.bbappend')}
         for k, v in self.__map.items():
             if k.endswith('.bb'):
                 __linked_appends.update(
-- 
2.43.0


From bfe1264da002ce3229194c41a48ca726bcdda877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 43/75] fix: finalize does not use answers given before linking

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index cf42d46..d03ca0c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -357,6 +357,9 @@ class Stash():
             links.add(k)
             self.__map[k] = list(links)
 
+        # the links have changed
+        self._clear_cached()
+
         for k, v in self.__map.items():
             for item in self.GetItemsFor(k):
                 item.IncludedFrom = v
-- 
2.43.0


From 2c8dd09ef985bde88ef82724e58d3b0a0a3e5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:49 +0000
Subject: [PATCH 44/75] fix: callers can not alter remembered answers

---
 oelint_parser/cls_stash.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index d03ca0c..409de7f 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1,3 +1,4 @@
+import copy
 import functools
 import glob
 import hashlib
@@ -24,6 +25,17 @@ __oe_utils_read_file_regex__ = regex.compile(
     r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
 
 
+def _cached_copy(func):
+    """functools.cache, that hands out a copy of the result to every caller"""
+    cached = functools.cache(func)
+
+    @functools.wraps(func)
+    def _wrapper(*args, **kwargs):
+        return copy.deepcopy(cached(*args, **kwargs))
+    _wrapper.cache_clear = cached.cache_clear
+    return _wrapper
+
+
 class Stash():
     """The Stash object is the central storage for extracting the bitbake information."""
 
@@ -367,7 +379,7 @@ class Stash():
         # Reset caches
         self._clear_cached()
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetRecipes(self) -> None:
         """Get bb files in stash
 
@@ -376,7 +388,7 @@ class Stash():
         """
         return sorted({x for x in self.__map if x.endswith(".bb")})
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetLoneAppends(self) -> List[str]:
         """Get bbappend without a matching bb
 
@@ -391,7 +403,7 @@ class Stash():
                     x for x in v if x.endswith('.bbappend'))
         return sorted({x for x in __appends if x not in __linked_appends})
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetConfFiles(self) -> List[str]:
         """Get configurations files
 
@@ -400,7 +412,7 @@ class Stash():
         """
         return sorted({x.Origin for x in self.__list if x.Origin.endswith(".conf")})
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetBBClasses(self) -> List[str]:
         """Get bbclass files
 
@@ -440,7 +452,7 @@ class Stash():
 
         return [x for x in items if _filter(x, attname, attvalue)]
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetLinksForFile(self, filename: str) -> List[str]:
         """Get file which this file is linked against
 
@@ -639,7 +651,7 @@ class Stash():
                 self.ExpandTerm(filename, v or "")) if x not in _remove.get(k, [])]
         return _finalexp
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetFiles(self, _file: str, pattern: str) -> List[str]:
         """Get files matching SRC_URI entries
 
@@ -714,7 +726,7 @@ class Stash():
             _in = _in.replace(k, v)
         return _in
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetScrComponents(self, string: str) -> dict:
         """Return SRC_URI components
 
@@ -739,7 +751,7 @@ class Stash():
                        for x in _options if "=" in x}
         return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def SafeLineSplit(self, string: str) -> List[str]:
         """Split line in a safe manner
 
@@ -876,7 +888,7 @@ class Stash():
                 res = ''
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetValidPackageNames(self, _file: str, strippn: bool = False) -> List[str]:
         """Get known valid names for packages
 
@@ -906,7 +918,7 @@ class Stash():
                     res.add(_pkg)
         return res
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetValidNamedResources(self, _file: str) -> List[str]:
         """Get list of valid SRCREV resource names
 
@@ -967,7 +979,7 @@ class Stash():
             filename=_file, classifier=Inherit.CLASSIFIER)
         return any(x for x in _inherits if "packagegroup" in x.get_items())
 
-    @functools.cache  # noqa: B019
+    @_cached_copy
     def GetPackagesDynamic(self, _file: str) -> Set[str]:
         """returns set of dynamic package patterns defined for _file
 
-- 
2.43.0


From e41e2ec4027650a62ace9fcafffc19fae00feb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:57 +0000
Subject: [PATCH 45/75] fix: keep query and fragment of source URIs

---
 oelint_parser/cls_stash.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 409de7f..a528611 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -738,18 +738,21 @@ class Stash():
         """
         _raw = self._replace_with_known_mirrors(string)
         try:
-            _url = urlparse(self._replace_with_known_mirrors(string))
+            _url = urlparse(_raw.split(";")[0])
         except ValueError:
             return {"scheme": '', "src": '', "options": {}}
         _scheme = _url.scheme
         _tmp = _url.netloc
         if _url.path:
             _tmp += "/" + _url.path.lstrip("/")
-        _path = _tmp.split(";")[0]
+        if _url.query:
+            _tmp += "?" + _url.query
+        if _url.fragment:
+            _tmp += "#" + _url.fragment
         _options = _raw.split(";")[1:] if ";" in _raw else []
         _parsed_opt = {x.split("=", 1)[0]: x.split("=", 1)[1]
                        for x in _options if "=" in x}
-        return {"scheme": _scheme, "src": _path, "options": _parsed_opt}
+        return {"scheme": _scheme, "src": _tmp, "options": _parsed_opt}
 
     @_cached_copy
     def SafeLineSplit(self, string: str) -> List[str]:
-- 
2.43.0


From eb2b22953896d5a2835ae37d58d77655cef4d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:10 +0000
Subject: [PATCH 46/75] fix: an empty pattern does not make every package
 dynamic

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index a528611..e7f84a9 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -998,8 +998,8 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
-            packages_dynamic.update(self.SafeLineSplit(
-                self.ExpandTerm(_file, i.VarValueStripped)))
+            packages_dynamic.update(x for x in self.SafeLineSplit(
+                self.ExpandTerm(_file, i.VarValueStripped)) if x)
 
         return packages_dynamic
 
-- 
2.43.0


From ac10eacf15cc4d28508a41dd9a80e4af30368d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 47/75] fix: directory names are no patterns

---
 oelint_parser/cls_stash.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index e7f84a9..08aa3bf 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -350,10 +350,10 @@ class Stash():
         """
         _root = self.GetLayerRoot(path)
         if _root:
-            for conf in glob.glob(os.path.join(_root, "conf", "distro", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "distro", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
-            for conf in glob.glob(os.path.join(_root, "conf", "machine", "*.conf")):
+            for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "machine", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
                 CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
@@ -666,9 +666,9 @@ class Stash():
         src_uris = self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                     attribute=Variable.ATTR_VAR, attributeValue="SRC_URI")
         files_paths = {
-            "{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern) for x in src_uris}
+            "{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern) for x in src_uris}
         for item in src_uris:
-            files_paths.update({"{dir}/*/{pattern}".format(dir=os.path.dirname(x.Origin), pattern=pattern)
+            files_paths.update({"{dir}/*/{pattern}".format(dir=glob.escape(os.path.dirname(x.Origin)), pattern=pattern)
                                 for x in self.GetItemsFor(filename=item.Origin)})
         for item in files_paths:
             res.update(glob.glob(item))
-- 
2.43.0


From a8548b2156d5a2b1efc661bebedefe0139c58d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:38 +0000
Subject: [PATCH 48/75] fix: class-nativesdk is a class override of functions,
 too

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 1c3f938..bba49de 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -218,7 +218,7 @@ class Item():
         chunks = name.split(self.__OverrideDelimiter)
         if name in ['__anonymous']:
             return (name, '')
-        _marker = ["append", "prepend", "class-native",
+        _marker = ["append", "prepend", "class-native", "class-nativesdk",
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
@@ -736,7 +736,7 @@ class Function(Item):
             str -- machine specific modifier or ""
         """
         for x in self.SubItems:
-            if x not in ["append", "prepend", "class-native", "class-cross", "class-target", "remove", "machine"]:
+            if x not in ["append", "prepend", "class-native", "class-nativesdk", "class-cross", "class-target", "remove", "machine"]:
                 return x
         return ""
 
-- 
2.43.0


From d3e097fa052d5df594eefc00b6a81975df7006ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:50 +0000
Subject: [PATCH 49/75] fix: removing a package does not make it known

---
 oelint_parser/cls_stash.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 08aa3bf..259c19a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -907,6 +907,7 @@ class Stash():
                                  attribute=Variable.ATTR_VAR, attributeValue="PACKAGES")
         _comp += self.GetItemsFor(filename=_file, classifier=Variable.CLASSIFIER,
                                   attribute=Variable.ATTR_VAR, attributeValue="PACKAGE_BEFORE_PN")
+        _comp = [x for x in _comp if "remove" not in x.SubItems]
         for _pn in ['${PN}', self.GuessRecipeName(_file)]:
             res.add(_pn)
             res.add("{recipe}-ptest".format(recipe=_pn))
@@ -998,6 +999,8 @@ class Stash():
                                  attribute=Variable.ATTR_VAR,
                                  attributeValue="PACKAGES_DYNAMIC")
         for i in items:
+            if "remove" in i.SubItems:
+                continue
             packages_dynamic.update(x for x in self.SafeLineSplit(
                 self.ExpandTerm(_file, i.VarValueStripped)) if x)
 
-- 
2.43.0


From be7a8f5711bce0869ab2fb05a86d7bd3e7fcfd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:14 +0000
Subject: [PATCH 50/75] fix: statements may be continued in front of their
 value

---
 oelint_parser/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index d72e4ac..5f7d0e2 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -62,6 +62,8 @@ __regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
 __func_start_regexp__ = regex.compile(
     r"[^\"'#=]*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
+__continued_head_regex__ = regex.compile(r"\\\s*\n\s*")
+__value_start_regex__ = regex.compile(r"[\"']|\(\s*\)\s*\{")
 __valid_func_name_regex__ = regex.compile(r"^[A-Za-z0-9#_$]+")
 
 
@@ -180,11 +182,15 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
             _repl = INLINE_BLOCK
         raw_line = raw_line.replace(repl, _repl, 1)
         inline_blocks.append((repl, _repl))
+    # up to the value or body continuations just separate words
+    _value = RegexRpl.search(__value_start_regex__, raw_line)
+    _head = raw_line[:_value.start()] if _value else raw_line
+    cnt = RegexRpl.sub(__continued_head_regex__, " ", _head) + raw_line[len(_head):]
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
            "inline_blocks": inline_blocks,
            # keep words at the start of a continued line apart from a \x escape
-           "cnt": raw_line.replace("\\\nx", "\\ x").replace("\n", "").replace("\\", chr(0x1b))}
+           "cnt": cnt.replace("\\\nx", "\\ x").replace("\n", "").replace("\\", chr(0x1b))}
     return (res, nextbuf, length)
 
 
-- 
2.43.0


From 3db32139643d6c5b54eb3aa0e3d8cea65708e822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:09 +0000
Subject: [PATCH 51/75] fix: blanks are no part of addpylib, addfragments and
 include_all arguments

---
 oelint_parser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 5f7d0e2..b90d40d 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -53,12 +53,12 @@ __regex_flagass = regex.compile(
     r"^(\s*|\t*)(?P<name>([A-Z0-9a-z_.+/~-]|\$|\{|\}|:)+?)\[(?P<ident>(\w|-|\.|/|@|_|\+)+)\](?P<varop>(\s|\t)*(\+|\?|\:|\.)*=(\+|\.)*(\s|\t)*)(?P<varval>.*)")
 __regex_export_func = regex.compile(r"^EXPORT_FUNCTIONS\s+(?P<func>.*)")
 __regex_addpylib = regex.compile(
-    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/.+)(\s+|\t+)(?P<namespace>.*)")
+    r"^(\s+|\t*)addpylib(\s+|\t+)(?P<path>\$\{LAYERDIR\}/\S+)(\s+|\t+)(?P<namespace>\S*)")
 __regex_unset = regex.compile(
     r"^(\s|\t)*unset(\s|\t)+(?P<varname>[^\s\[\]]+)(\[(?P<flag>[^\[\]]+)\])?")
 __regex_addfragments = regex.compile(
-    r"addfragments\s+(?P<path>.+)\s+(?P<variable>.+)\s+(?P<flagged>.+)")
-__regex_includeall = regex.compile(r"include_all\s+(?P<file>.+)")
+    r"addfragments\s+(?P<path>\S+)\s+(?P<variable>\S+)\s+(?P<flagged>\S+)")
+__regex_includeall = regex.compile(r"include_all\s+(?P<file>\S+)")
 __func_start_regexp__ = regex.compile(
     r"[^\"'#=]*(((?P<py>python)|(?P<fr>fakeroot))\s*)*(?P<func>[\w\.\-\+\{\}\$]+)?\s*\(\s*\)\s*\{")
 __next_line_regex__ = regex.compile(r"\\\s*\n")
-- 
2.43.0


From 85b526a5afc0c032b50f8930f487681a5c86c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:33 +0000
Subject: [PATCH 52/75] fix: StashLists can be appended to and removed from a
 StashList

---
 oelint_parser/cls_stash.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 259c19a..5bc161b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -99,8 +99,8 @@ class Stash():
             Args:
                 item (Union[Item, Iterable[Item]]): Item or Iterable of Items
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.append(_item)
             else:
                 self.data.append(item)
@@ -119,8 +119,8 @@ class Stash():
             Args:
                 item (Item): Item(s) to remove
             """
-            if isinstance(item, (list, tuple)):
-                for _item in item:
+            if isinstance(item, (list, tuple, Stash.StashList)):
+                for _item in list(item):
                     self.data.remove(_item)
             else:
                 self.data.remove(item)
-- 
2.43.0


From f2860ce09ba7b7636983dbe23ca626e5640052a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:52 +0000
Subject: [PATCH 53/75] fix: a StashList can be extended by itself

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 5bc161b..f259e2b 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -57,7 +57,7 @@ class Stash():
             self.data[index] = item
 
         def __iadd__(self, __value: Iterable) -> List[Item]:
-            self.data.__iadd__(__value)
+            self.data += list(__value)
             return self
 
         def __getitem__(self, index: Union[int, slice]) -> Union[Item, 'Stash.StashList']:
@@ -111,7 +111,7 @@ class Stash():
             Args:
                 other (Stash.StashList): Other stash other
             """
-            self.data.extend(other)
+            self.data.extend(list(other))
 
         def remove(self, item: Union[Item, Iterable[Item]]) -> None:
             """Remove from list
-- 
2.43.0


From 4a8783e52385cc9191c495d2235e236fec3c2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:54 +0000
Subject: [PATCH 54/75] fix: keep backslashes that are no line continuation

---
 oelint_parser/cls_item.py | 2 +-
 oelint_parser/parser.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index bba49de..a7afb01 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -7,7 +7,7 @@ import regex
 from oelint_parser.constants import CONSTANTS
 from oelint_parser.rpl_regex import RegexRpl
 
-__safeline_split_regex__ = regex.compile(r"\s|\t|\x1b(?!x)")
+__safeline_split_regex__ = regex.compile(r"\s|\t|\x1b")
 __id_regex__ = regex.compile(r"[a-z0-9{}$]+")  # noqa: P103
 __versioned_regex__ = regex.compile(r"\s*\(.*?\)")
 
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index b90d40d..51f97e1 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -189,8 +189,8 @@ def prepare_lines_subparser(_iter: Iterable, lineOffset: int, num: int, line: in
     res = {"line": startnum + lineOffset, "raw": raw_line,
            "realraw": real_raw,
            "inline_blocks": inline_blocks,
-           # keep words at the start of a continued line apart from a \x escape
-           "cnt": cnt.replace("\\\nx", "\\ x").replace("\n", "").replace("\\", chr(0x1b))}
+           # only continuations are marked, all other backslashes are part of the text
+           "cnt": RegexRpl.sub(__next_line_regex__, chr(0x1b), cnt).replace("\n", "")}
     return (res, nextbuf, length)
 
 
-- 
2.43.0


From 1f78bd68c6c2e327ecb8fc08508cb56f17f21722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:42 +0000
Subject: [PATCH 55/75] fix: take exactly the quotes around a value away

---
 oelint_parser/cls_item.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index a7afb01..02a98db 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -162,6 +162,14 @@ class Item():
         """
         return Item(None, None, None, None, None, [])._safe_linesplit(string)
 
+    @staticmethod
+    def _strip_quotes(string: str) -> str:
+        string = string.strip()
+        if len(string) > 1 and string[0] in ['"', "'"] and string[0] == string[-1]:
+            # further quotes are part of the value
+            return string[1:-1]
+        return string.strip('"')
+
     def _safe_linesplit(self, string: str) -> List[str]:
         return [x for x in RegexRpl.split(__safeline_split_regex__, string) if x]
 
@@ -377,7 +385,7 @@ class Variable(Item):
         Returns:
             str: stripped version of variable value
         """
-        return self.VarValue.strip().lstrip('"').rstrip('"')
+        return self._strip_quotes(self.VarValue)
 
     def IsAppend(self) -> bool:
         """Check if operation is an append
@@ -414,7 +422,7 @@ class Variable(Item):
         Returns:
             list -- clean list of items in variable value
         """
-        _x = override.strip('"') or self.VarValue.strip().strip('"')
+        _x = override.strip('"') or self._strip_quotes(self.VarValue)
         if versioned:
             _x = RegexRpl.sub(__versioned_regex__, "", _x)
         return self._safe_linesplit(_x)
@@ -865,7 +873,7 @@ class FlagAssignment(Item):
         Returns:
             str: value set
         """
-        return self.__value.strip().strip('"')
+        return self._strip_quotes(self.__value)
 
     def get_items(self) -> Tuple[str, str, str, str]:
         """Get items
-- 
2.43.0


From e368d86bdd66d20c8fb72b4caf6835738a4003b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:35 +0000
Subject: [PATCH 56/75] fix: take exactly the quotes around arguments of inline
 conditionals away

---
 oelint_parser/inlinerep.py | 57 ++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 21 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 92ed7ed..1ab1491 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -27,6 +27,21 @@ __oe_utils_both_contain_regex__ = regex.compile(
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
 
 
+def _unquote(value: str) -> str:
+    """remove the quotes around an argument, but none that are part of it
+
+    Args:
+        value (str): Argument
+
+    Returns:
+        str: Text of the argument
+    """
+    value = value.strip()
+    if len(value) > 1 and value[0] in "\"'" and value[0] == value[-1]:
+        return value[1:-1]
+    return value.strip("\"'")
+
+
 def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     """bb.utils.filter emulation
 
@@ -43,7 +58,7 @@ def bb_utils_filter(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -62,8 +77,8 @@ def bb_utils_contains(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -82,8 +97,8 @@ def bb_utils_contains_any(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__bb_utils_contains_any_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -102,8 +117,8 @@ def oe_utils_conditional(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_conditional_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -122,8 +137,8 @@ def oe_utils_ifelse(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_ifelse_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -144,8 +159,8 @@ def oe_utils_any_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return _unquote(falseval)
+        return _unquote(trueval)
     return None
 
 
@@ -166,8 +181,8 @@ def oe_utils_all_distro_features(_in: str, negative_clause: bool = False) -> str
         trueval = '1' if not m.groupdict().get('trueval', '') else m.group('trueval')
         falseval = '' if not m.groupdict().get('falseval', '') else m.group('falseval')
         if negative_clause:
-            return falseval.strip("\"'")
-        return trueval.strip("\"'")
+            return _unquote(falseval)
+        return _unquote(trueval)
     return None
 
 
@@ -186,8 +201,8 @@ def oe_utils_vartrue(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_vartrue_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -206,8 +221,8 @@ def oe_utils_less_or_equal(_in: str, negative_clause: bool = False) -> str:
     m = RegexRpl.match(__oe_utils_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -226,8 +241,8 @@ def oe_utils_version_less_or_equal(_in: str, negative_clause: bool = False) -> s
     m = RegexRpl.match(__oe_utils_version_less_or_equal_regex__, _in)
     if m:
         if negative_clause:
-            return m.group('falseval').strip("\"'")
-        return m.group('trueval').strip("\"'")
+            return _unquote(m.group('falseval'))
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -247,7 +262,7 @@ def oe_utils_both_contain(_in: str, negative_clause: bool = False) -> str:
     if m:
         if negative_clause:
             return ''
-        return m.group('trueval').strip("\"'")
+        return _unquote(m.group('trueval'))
     return None
 
 
@@ -264,7 +279,7 @@ def d_getvar(_in: str) -> str:
         return None
     m = RegexRpl.match(__d_getvar_regex__, _in)
     if m:
-        return '${' + m.group("val").strip("\"'") + '}'
+        return '${' + _unquote(m.group("val")) + '}'
     return None
 
 
-- 
2.43.0


From 3a63e1b89d9d6958ef9bc0704678183002dc51bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:56 +0000
Subject: [PATCH 57/75] fix: commas inside of quotes and brackets don't
 separate arguments of inline conditionals

---
 oelint_parser/inlinerep.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 1ab1491..2f67d3c 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -2,28 +2,34 @@ import regex
 
 from oelint_parser.rpl_regex import RegexRpl
 
+# commas inside of quotes or brackets don't separate arguments
+__quoted__ = r"\"[^\"]*\"|'[^']*'"
+__nested__ = rf"\((?:{__quoted__}|[^\"'()])*\)"
+__nested__ = rf"\((?:{__quoted__}|{__nested__}|[^\"'()])*\)"
+__arg__ = rf"(?:{__quoted__}|{__nested__}|[^\"',()])*?"
+
 __bb_utils_filter_regex__ = regex.compile(
-    r'(.*)bb\.utils\.filter\(\s*(?P<trueval>.*?),.*?,.*?\)')
+    rf'(.*)bb\.utils\.filter\(\s*(?P<trueval>{__arg__}),{__arg__},{__arg__}\)')
 __bb_utils_contains_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    rf"(.*)bb\.utils\.contains\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*.\)")
 __bb_utils_contains_any_regex__ = regex.compile(
-    r"(.*)bb\.utils\.contains_any\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.\)")
+    rf"(.*)bb\.utils\.contains_any\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*.\)")
 __oe_utils_conditional_regex__ = regex.compile(
-    r"(.*)oe\.utils\.conditional\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),\s*.*?\)")
+    rf"(.*)oe\.utils\.conditional\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*{__arg__}\)")
 __oe_utils_ifelse_regex__ = regex.compile(
-    r"(.*)oe\.utils\.ifelse\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?)\)")
+    rf"(.*)oe\.utils\.ifelse\({__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__})\)")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.any_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    rf"(.*)oe\.utils\.any_distro_features\({__arg__},\s*(?P<feature>{__arg__})(,\s*(?P<trueval>{__arg__})(,\s*(?P<falseval>{__arg__}))*)*\)")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    r"(.*)oe\.utils\.all_distro_features\(.*?,\s*(?P<feature>.*?)(,\s*(?P<trueval>.*?)(,\s*(?P<falseval>.*?))*)*\)")
+    rf"(.*)oe\.utils\.all_distro_features\({__arg__},\s*(?P<feature>{__arg__})(,\s*(?P<trueval>{__arg__})(,\s*(?P<falseval>{__arg__}))*)*\)")
 __oe_utils_vartrue_regex__ = regex.compile(
-    r"(.*)oe\.utils\.vartrue\(.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.vartrue\({__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.less_or_equal\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    r"(.*)oe\.utils\.version_less_or_equal\(.*?,\s*.*?,\s*(?P<trueval>.*?),\s*(?P<falseval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.version_less_or_equal\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
 __oe_utils_both_contain_regex__ = regex.compile(
-    r"(.*)oe\.utils\.both_contain\(.*?,\s*.*?,\s*(?P<trueval>.*?),.*?\)")
+    rf"(.*)oe\.utils\.both_contain\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),{__arg__}\)")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
 
 
-- 
2.43.0


From fd4bdb9b6463eb9d549ebf10f6a3acc73150fb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:14 +0000
Subject: [PATCH 58/75] fix: evaluate inline conditionals spread over several
 lines

---
 oelint_parser/cls_item.py  | 2 +-
 oelint_parser/inlinerep.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 02a98db..94cbb0e 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -433,7 +433,7 @@ class Variable(Item):
         Returns:
             bool -- True if multiline
         """
-        return "\\x1b" in self.Raw or "\\\n" in self.Raw
+        return "\\x1b" in self.Raw or "\\\n" in self.Raw or "\\\n" in self.RealRaw
 
     def GetDistroEntry(self) -> str:
         """Get distro specific entries in variable
diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 2f67d3c..1ec6576 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -30,6 +30,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
     rf"(.*)oe\.utils\.version_less_or_equal\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
 __oe_utils_both_contain_regex__ = regex.compile(
     rf"(.*)oe\.utils\.both_contain\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),{__arg__}\)")
+__continuation_regex__ = regex.compile(r"\\[ \t]*\n")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
 
 
@@ -299,7 +300,8 @@ def inlinerep(_in: str, negative_clause: bool = False) -> str:
     Returns:
         str: Expanded string or None, if not applicable
     """
-    _clean_in = _in.lstrip("${@").rstrip("}")
+    # line continuations are not part of the expression
+    _clean_in = RegexRpl.sub(__continuation_regex__, "", _in).lstrip("${@").rstrip("}")
     for x in [
         bb_utils_contains(_clean_in, negative_clause),
         bb_utils_contains_any(_clean_in, negative_clause),
-- 
2.43.0


From baaa212684157a23c22f42587b1d785f417a646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:36 +0000
Subject: [PATCH 59/75] fix: treat files that can not be read like missing ones

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 51f97e1..d33e6a4 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -234,7 +234,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
                         _iter, lineOffset, num, nextbuf, negative=negative)
                     num += length
                     prep_lines.append(item)
-    except FileNotFoundError:
+    except OSError:
         pass
     return prep_lines
 
-- 
2.43.0


From 2991f0b0c4326593ed26e78c07c9f9b8d4c61cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:59 +0000
Subject: [PATCH 60/75] fix: source URIs can name several resources

---
 oelint_parser/cls_stash.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index f259e2b..6863b6f 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -941,8 +941,9 @@ class Stash():
             for name in [x for x in self.SafeLineSplit(item.VarValueStripped) if x]:
                 _url = self.GetScrComponents(name)
                 if "name" in _url["options"]:
-                    res.add(_url["options"]["name"].replace(
-                        "${PN}", _recipe_name))
+                    # one name for each of several branches
+                    res.update(x.replace("${PN}", _recipe_name)
+                               for x in _url["options"]["name"].split(",") if x)
         return res
 
     @functools.cache  # noqa: B019
-- 
2.43.0


From ae097435761e6cc79b20015debb83feae9831339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:16 +0000
Subject: [PATCH 61/75] fix: report ignored includes as include

---
 oelint_parser/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index d33e6a4..cf56c30 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -439,9 +439,9 @@ def get_items(stash: object,
                     includename = stash.ExpandTerm(_file, m.group("incname"))
                     _path = stash.FindLocalOrLayer(
                         includename, os.path.dirname(_file))
+                    if includename in CONSTANTS.IncludeIgnore:
+                        _path = ''
                     if _path:
-                        if includename in CONSTANTS.IncludeIgnore:
-                            continue
                         tmp = stash.AddFile(
                             _path, lineOffset=line["line"] + includeOffset, forcedLink=_file)
                         if any(tmp):
-- 
2.43.0


From 2197be1389ea34f71ca8b5042342e21890400c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:34 +0000
Subject: [PATCH 62/75] fix: don't add the machines and distros of a layer
 again with every file

---
 oelint_parser/cls_stash.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 6863b6f..dd9477e 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -352,10 +352,12 @@ class Stash():
         if _root:
             for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "distro", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
-                CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
+                if _fn not in CONSTANTS.DistrosKnown:
+                    CONSTANTS.AddConstants({'replacements': {'distros': [_fn]}})
             for conf in glob.glob(os.path.join(glob.escape(_root), "conf", "machine", "*.conf")):
                 _fn, _ = os.path.splitext(os.path.basename(conf))
-                CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
+                if _fn not in CONSTANTS.MachinesKnown:
+                    CONSTANTS.AddConstants({'replacements': {'machines': [_fn]}})
 
     def Finalize(self) -> None:
         """finalize the dependencies within the stash
-- 
2.43.0


From e6d63d7e4a445fb6b62b98572f438be5e18d0b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:16 +0000
Subject: [PATCH 63/75] fix: outermost call of nested inline conditionals
 decides

---
 oelint_parser/inlinerep.py | 60 +++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 1ec6576..1945fe6 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -9,27 +9,27 @@ __nested__ = rf"\((?:{__quoted__}|{__nested__}|[^\"'()])*\)"
 __arg__ = rf"(?:{__quoted__}|{__nested__}|[^\"',()])*?"
 
 __bb_utils_filter_regex__ = regex.compile(
-    rf'(.*)bb\.utils\.filter\(\s*(?P<trueval>{__arg__}),{__arg__},{__arg__}\)')
+    rf'(.*?)bb\.utils\.filter\(\s*(?P<trueval>{__arg__}),{__arg__},{__arg__}\)')
 __bb_utils_contains_regex__ = regex.compile(
-    rf"(.*)bb\.utils\.contains\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*.\)")
+    rf"(.*?)bb\.utils\.contains\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*.\)")
 __bb_utils_contains_any_regex__ = regex.compile(
-    rf"(.*)bb\.utils\.contains_any\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*.\)")
+    rf"(.*?)bb\.utils\.contains_any\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*.\)")
 __oe_utils_conditional_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.conditional\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*{__arg__}\)")
+    rf"(.*?)oe\.utils\.conditional\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),\s*{__arg__}\)")
 __oe_utils_ifelse_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.ifelse\({__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__})\)")
+    rf"(.*?)oe\.utils\.ifelse\({__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__})\)")
 __oe_utils_any_distro_features_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.any_distro_features\({__arg__},\s*(?P<feature>{__arg__})(,\s*(?P<trueval>{__arg__})(,\s*(?P<falseval>{__arg__}))*)*\)")
+    rf"(.*?)oe\.utils\.any_distro_features\({__arg__},\s*(?P<feature>{__arg__})(,\s*(?P<trueval>{__arg__})(,\s*(?P<falseval>{__arg__}))*)*\)")
 __oe_utils_all_distro_features_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.all_distro_features\({__arg__},\s*(?P<feature>{__arg__})(,\s*(?P<trueval>{__arg__})(,\s*(?P<falseval>{__arg__}))*)*\)")
+    rf"(.*?)oe\.utils\.all_distro_features\({__arg__},\s*(?P<feature>{__arg__})(,\s*(?P<trueval>{__arg__})(,\s*(?P<falseval>{__arg__}))*)*\)")
 __oe_utils_vartrue_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.vartrue\({__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
+    rf"(.*?)oe\.utils\.vartrue\({__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
 __oe_utils_less_or_equal_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.less_or_equal\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
+    rf"(.*?)oe\.utils\.less_or_equal\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
 __oe_utils_version_less_or_equal_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.version_less_or_equal\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
+    rf"(.*?)oe\.utils\.version_less_or_equal\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),\s*(?P<falseval>{__arg__}),{__arg__}\)")
 __oe_utils_both_contain_regex__ = regex.compile(
-    rf"(.*)oe\.utils\.both_contain\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),{__arg__}\)")
+    rf"(.*?)oe\.utils\.both_contain\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),{__arg__}\)")
 __continuation_regex__ = regex.compile(r"\\[ \t]*\n")
 __d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
 
@@ -290,6 +290,21 @@ def d_getvar(_in: str) -> str:
     return None
 
 
+__emulations__ = {
+    "bb.utils.contains(": bb_utils_contains,
+    "bb.utils.contains_any(": bb_utils_contains_any,
+    "bb.utils.filter(": bb_utils_filter,
+    "oe.utils.all_distro_features(": oe_utils_all_distro_features,
+    "oe.utils.any_distro_features(": oe_utils_any_distro_features,
+    "oe.utils.both_contain(": oe_utils_both_contain,
+    "oe.utils.conditional(": oe_utils_conditional,
+    "oe.utils.ifelse(": oe_utils_ifelse,
+    "oe.utils.less_or_equal(": oe_utils_less_or_equal,
+    "oe.utils.vartrue(": oe_utils_vartrue,
+    "oe.utils.version_less_or_equal(": oe_utils_version_less_or_equal,
+}
+
+
 def inlinerep(_in: str, negative_clause: bool = False) -> str:
     """Replaces inline code expressions
 
@@ -302,20 +317,11 @@ def inlinerep(_in: str, negative_clause: bool = False) -> str:
     """
     # line continuations are not part of the expression
     _clean_in = RegexRpl.sub(__continuation_regex__, "", _in).lstrip("${@").rstrip("}")
-    for x in [
-        bb_utils_contains(_clean_in, negative_clause),
-        bb_utils_contains_any(_clean_in, negative_clause),
-        bb_utils_filter(_clean_in, negative_clause),
-        oe_utils_all_distro_features(_clean_in, negative_clause),
-        oe_utils_any_distro_features(_clean_in, negative_clause),
-        oe_utils_both_contain(_clean_in, negative_clause),
-        oe_utils_conditional(_clean_in, negative_clause),
-        oe_utils_ifelse(_clean_in, negative_clause),
-        oe_utils_less_or_equal(_clean_in, negative_clause),
-        oe_utils_vartrue(_clean_in, negative_clause),
-        oe_utils_version_less_or_equal(_clean_in, negative_clause),
-        d_getvar(_clean_in),
-    ]:
+    # for nested calls the outermost one decides
+    for name in sorted(__emulations__, key=_clean_in.find):
+        x = __emulations__[name](_clean_in, negative_clause)
         if x is not None:
-            return x
-    return None
+            # the branch could be a call on its own
+            res = inlinerep(x, negative_clause) if x else None
+            return x if res is None else res
+    return d_getvar(_clean_in)
-- 
2.43.0


From 605f23a378da96efd4f4ecd846fa71cdcec122ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 64/75] fix: further arguments of d.getVar are no part of the
 name

---
 oelint_parser/inlinerep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/inlinerep.py b/oelint_parser/inlinerep.py
index 1945fe6..de8246c 100644
--- a/oelint_parser/inlinerep.py
+++ b/oelint_parser/inlinerep.py
@@ -31,7 +31,7 @@ __oe_utils_version_less_or_equal_regex__ = regex.compile(
 __oe_utils_both_contain_regex__ = regex.compile(
     rf"(.*?)oe\.utils\.both_contain\({__arg__},\s*{__arg__},\s*(?P<trueval>{__arg__}),{__arg__}\)")
 __continuation_regex__ = regex.compile(r"\\[ \t]*\n")
-__d_getvar_regex__ = regex.compile(r'\s*d\.getVar\(\s*(?P<val>.*?)\s*\)')
+__d_getvar_regex__ = regex.compile(rf'\s*d\.getVar\(\s*(?P<val>{__arg__})\s*(,{__arg__})*\)')
 
 
 def _unquote(value: str) -> str:
-- 
2.43.0


From f330b43e017c7553f922170b3179d0e6f95b4953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:19 +0000
Subject: [PATCH 65/75] fix: a written \x1b does not make a value multi-line

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 94cbb0e..368d1eb 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -433,7 +433,7 @@ class Variable(Item):
         Returns:
             bool -- True if multiline
         """
-        return "\\x1b" in self.Raw or "\\\n" in self.Raw or "\\\n" in self.RealRaw
+        return "\\\n" in self.Raw or "\\\n" in self.RealRaw
 
     def GetDistroEntry(self) -> str:
         """Get distro specific entries in variable
-- 
2.43.0


From 06f73b0ccd536cfdfd27f88fc2a15d6655cc9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:11 +0000
Subject: [PATCH 66/75] fix: read files as UTF-8, undecodable bytes are no
 reason to fail

---
 oelint_parser/cls_stash.py | 2 +-
 oelint_parser/parser.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index dd9477e..23b2f07 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -887,7 +887,7 @@ class Stash():
             try:
                 _fullpath = self.ExpandTerm(_file, m.group(
                     "file"), spare=spare, seen=seen).strip("'\"")
-                with open(_fullpath) as i:
+                with open(_fullpath, encoding="utf-8", errors="replace") as i:
                     res = i.read()
             except (OSError, ValueError):
                 res = ''
diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index cf56c30..78b8c12 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -207,7 +207,7 @@ def prepare_lines(_file: str, lineOffset: int = 0, negative: bool = False) -> Li
     """
     try:
         prep_lines = []
-        with open(_file) as i:
+        with open(_file, encoding="utf-8", errors="replace") as i:
             _iter = enumerate(i.readlines())
             nextbuf = ''
             num = 1
-- 
2.43.0


From d9935d164a6a918be7fed6b1107ae62386ee130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:37 +0000
Subject: [PATCH 67/75] fix: a task name containing before or after is no
 keyword of addtask

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 78b8c12..5f4094c 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -46,7 +46,7 @@ __regex_python = regex.compile(
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+]+)")
 __regex_addtask = regex.compile(
-    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=after))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=before))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
+    r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=(?<=\s)after(?!\S)))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=(?<=\s)before(?!\S)))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
     r"^(\s*|\t*)deltask\s+(?P<func>[\w\-]+)\s*(?P<comment>#.*)*")
 __regex_flagass = regex.compile(
-- 
2.43.0


From e07f4530f9fed55aecb13c8bd8daed392a2fd9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:05 +0000
Subject: [PATCH 68/75] fix: an invalid pattern in PACKAGES_DYNAMIC is no
 reason to fail

---
 oelint_parser/cls_stash.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 23b2f07..34ebda1 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1022,7 +1022,11 @@ class Stash():
         """
         expanded = self.ExpandTerm(_file, name)
         for pattern in self.GetPackagesDynamic(_file):
-            if RegexRpl.match(pattern, expanded):
-                return True
+            try:
+                if RegexRpl.match(pattern, expanded):
+                    return True
+            except regex.error:
+                # not a valid pattern, so it can't match
+                continue
 
         return False
-- 
2.43.0


From d227f601bcc8932366ce4fc5ed811ca0efeb7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:40 +0000
Subject: [PATCH 69/75] fix: reading a file replaces its block only, not
 everything around it

---
 oelint_parser/cls_stash.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 34ebda1..9b9260c 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -22,7 +22,7 @@ __variable_pattern_regex__ = regex.compile(r"\$\{(.+?)\}")
 __variable_pattern_regex_2__ = regex.compile(
     r"d.getVar\(.(.+?).(True|False|,|\s+)*\)")
 __oe_utils_read_file_regex__ = regex.compile(
-    r"\{@\s*(.*)oe\.utils\.read_file\((?P<file>.*)\)\}")
+    r"\$?\{@[^{}]*?oe\.utils\.read_file\((?P<file>([^{}]|\$\{[^{}]*\})*?)\)\s*\}")
 
 
 def _cached_copy(func):
@@ -836,6 +836,18 @@ class Stash():
         spare = spare or []
         if INLINE_BLOCK in value and objref is not None:
             value = self._ReverseInlineBlock(objref)
+        m = RegexRpl.search(__oe_utils_read_file_regex__, value)
+        if m:
+            try:
+                _fullpath = self.ExpandTerm(_file, m.group(
+                    "file"), spare=spare, seen=seen).strip("'\"")
+                with open(_fullpath, encoding="utf-8", errors="replace") as i:
+                    _content = i.read()
+            except (OSError, ValueError):
+                _content = ''
+            # the content is taken as it is, only what is around is left to expand
+            return self.ExpandTerm(_file, value[:m.start()], spare=spare, seen=seen) + _content + \
+                self.ExpandTerm(_file, value[m.end():], spare=spare, seen=seen)
         res = str(value)
 
         def _expand(res, _file, m, quote: str = ''):
@@ -883,14 +895,6 @@ class Stash():
             res = _expand(res, _file, m)
         for m in list(RegexRpl.finditer(__variable_pattern_regex_2__, value)):
             res = _expand(res, _file, m, quote='"')
-        for m in list(RegexRpl.finditer(__oe_utils_read_file_regex__, value)):
-            try:
-                _fullpath = self.ExpandTerm(_file, m.group(
-                    "file"), spare=spare, seen=seen).strip("'\"")
-                with open(_fullpath, encoding="utf-8", errors="replace") as i:
-                    res = i.read()
-            except (OSError, ValueError):
-                res = ''
         return res
 
     @_cached_copy
-- 
2.43.0


From d37156afaf2e2ea02d3dcce178879fa9d82264e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:37 +0000
Subject: [PATCH 70/75] fix: overrides of a function whose name starts with a
 word used again later

---
 oelint_parser/cls_item.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 368d1eb..0a7493b 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -230,9 +230,9 @@ class Item():
                    "class-cross", "class-target", "remove"]
         _suffix = []
         _var = [chunks[0]]
-        for i in chunks[1:]:
+        for n, i in enumerate(chunks[1:], start=1):
             if i in _marker or self.__OverrideDelimiter.join(_var) in CONSTANTS.FunctionsKnown:
-                _suffix = chunks[chunks.index(i):]
+                _suffix = chunks[n:]
                 break
             else:
                 _var.append(i)
-- 
2.43.0


From 45265fdcaefa3592ca8627874c7666312a8bb4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:58 +0000
Subject: [PATCH 71/75] fix: a pattern in PACKAGES_DYNAMIC nested very deep
 raised RecursionError

---
 oelint_parser/cls_stash.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 9b9260c..1e3e83a 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -1029,8 +1029,8 @@ class Stash():
             try:
                 if RegexRpl.match(pattern, expanded):
                     return True
-            except regex.error:
-                # not a valid pattern, so it can't match
+            except (regex.error, RecursionError):
+                # not a valid pattern or one nested too deep, so it can't match
                 continue
 
         return False
-- 
2.43.0


From 6eab7b8e4eae2f7defdef7e91c315088fc4556db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:23 +0000
Subject: [PATCH 72/75] fix: recognise python definitions with a return
 annotation

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index 5f4094c..a964721 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -42,7 +42,7 @@ __regex_export_woval = regex.compile(r"^\s*?export(\s+|\t+)(?P<name>.+)\s*$")
 __regex_comments = regex.compile(r"^(\s|\t)*#+\s*(?P<body>.*)")
 __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
-    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\:")
+    r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\s*(->.*)?\:")
 __regex_include = regex.compile(
     r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+]+)")
 __regex_addtask = regex.compile(
-- 
2.43.0


From 93dd8489f9cf1003527bdafe446b25ea5fe991d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:59 +0000
Subject: [PATCH 73/75] fix: don't cut include names at unusual characters

---
 oelint_parser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/parser.py b/oelint_parser/parser.py
index a964721..096b15d 100644
--- a/oelint_parser/parser.py
+++ b/oelint_parser/parser.py
@@ -44,7 +44,7 @@ __regex_comments_pure = regex.compile(r"^#+\s*(?P<body>.*)")
 __regex_python = regex.compile(
     r"^(\s*|\t*)def(\s+|\t+)(?P<funcname>[A-Za-z0-9_\-]+)(\s*|\t*)\(.*\)\s*(->.*)?\:")
 __regex_include = regex.compile(
-    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>[A-za-z0-9\-\./\$\{\}\+]+)")
+    r"^(\s*|\t*)(?P<statement>include|require)(\s+|\t+)(?P<incname>\S+)")
 __regex_addtask = regex.compile(
     r"^(\s*|\t*)addtask\s+(?P<func>[\w\-]+)\s*((before\s*(?P<before>(([^#\n]*(?=(?<=\s)after(?!\S)))|([^#\n]*))))|(after\s*(?P<after>(([^#\n]*(?=(?<=\s)before(?!\S)))|([^#\n]*)))))*(?P<comment>#.*|.*?)")
 __regex_deltask = regex.compile(
-- 
2.43.0


From 66d68601f5428ab3cb39a93769584405c63856fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:06 +0000
Subject: [PATCH 74/75] fix: stashes of the past were kept in memory

Results of GetLayerRoot, FindLocalOrLayer, GetScrComponents, SafeLineSplit and the Guess methods were remembered along with the stash they were asked from, and never dropped, so no stash and none of its items was ever released.
---
 oelint_parser/cls_stash.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/oelint_parser/cls_stash.py b/oelint_parser/cls_stash.py
index 1e3e83a..a0c5543 100644
--- a/oelint_parser/cls_stash.py
+++ b/oelint_parser/cls_stash.py
@@ -176,6 +176,15 @@ class Stash():
 
         self._clear_cached()
 
+        # these are never outdated, but they must not keep the stashes of the past alive
+        self.FindLocalOrLayer.cache_clear()
+        self.GetLayerRoot.cache_clear()
+        self.GetScrComponents.cache_clear()
+        self.GuessBaseRecipeName.cache_clear()
+        self.GuessRecipeName.cache_clear()
+        self.GuessRecipeVersion.cache_clear()
+        self.SafeLineSplit.cache_clear()
+
     def _clear_cached(self):
         """Clear cached values"""
         self.GetBBClasses.cache_clear()
-- 
2.43.0


From bb2b4a235da6c32afd7f4e55931422624cb51ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:52 +0000
Subject: [PATCH 75/75] fix: FunctionExports.ATTR_FUNCNAME names the attribute
 of the item

---
 oelint_parser/cls_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oelint_parser/cls_item.py b/oelint_parser/cls_item.py
index 0a7493b..06561b1 100644
--- a/oelint_parser/cls_item.py
+++ b/oelint_parser/cls_item.py
@@ -887,7 +887,7 @@ class FlagAssignment(Item):
 class FunctionExports(Item):
     """Items representing EXPORT_FUNCTIONS in bitbake."""
 
-    ATTR_FUNCNAME = "FuncName"
+    ATTR_FUNCNAME = "FuncNames"
     CLASSIFIER = "FunctionExports"
 
     def __init__(self,
-- 
2.43.0

