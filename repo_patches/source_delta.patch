From c31cb862257edcbdb28cb06b44728a1930e6885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 01/33] fix: pass the data that the W_FUNC_DYNAMIC message
 refers to

---
 asterisklint/varfun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 28ade07..ebb9151 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -168,7 +168,7 @@ class FuncLoader(metaclass=Singleton):
         if isinstance(func, Var):
             # We won't be able to match any real functions. And you
             # should get a big fat warning.
-            W_FUNC_DYNAMIC(where, func=func)
+            W_FUNC_DYNAMIC(where, data=func_and_args)
 
             if start is not None:
                 return ReadFuncSlice(func, args, start=start, length=length)
-- 
2.43.0


From 50a67645906148de147448cb5813ad6c5a13b163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 02/33] fix: pass the label that the E_DP_LABEL_INVALID message
 refers to

---
 asterisklint/dialplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 52983dc..8247ffb 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -498,7 +498,7 @@ class DialplanVarset(object):
 
             if label is not None:
                 if not label.endswith(')'):
-                    E_DP_LABEL_INVALID(varset.where)
+                    E_DP_LABEL_INVALID(varset.where, label=label)
                     return None
                 label = label[0:-1]
                 # TODO: check label validity
-- 
2.43.0


From 3fe6df9f35c11278ec9876740a1b97206fb45d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 03/33] fix: do not crash on a second [general] context

---
 asterisklint/dialplan.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 8247ffb..adb37c3 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -117,10 +117,9 @@ class Dialplan(object):
 
     def add_general(self, general):
         if self._general:
+            # Don't replace it. Subsequent varsets are to be added to
+            # the existing one.
             W_CONF_CTX_DUPE(general.where, previous=self._general.where)
-            # BEWARE: make sure we use a ref to the NEW context, because
-            # we may be appending to that object...!!
-            self._general.extend(general)
         else:
             if self._globals or self.contexts:
                 H_DP_GENERAL_MISPLACED(general.where)
@@ -584,7 +583,7 @@ class DialplanAggregator(ConfigAggregator):
     def on_context(self, context):
         if context.name == 'general':
             self._dialplan.add_general(context)
-            self._curcontext = context
+            self._curcontext = self._dialplan.general
         elif context.name == 'globals':
             self._dialplan.add_globals(context)
             self._curcontext = context
-- 
2.43.0


From 8f62d3e57a5c654f0d5128b29898def24b33b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:40 +0000
Subject: [PATCH 04/33] fix: do not loop forever on Goto/GotoIf with more than
 three arguments

---
 asterisklint/app/vall/builtin.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 28409ad..84a50dd 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -14,7 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import (
-    AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
+    E_APP_ARG_MANY, AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
     NoPipeDelimiterMixin, VarCondIfStyleApp)
 
 from asterisklint.varfun import VarLoader
@@ -73,7 +73,7 @@ class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
     def __call__(self, data, where, jump_destinations):
         args = super().__call__(data, where, jump_destinations)
 
-        jumpdest = args[:]
+        jumpdest = args[0:3]  # excess args are dropped
         while len(jumpdest) != 3:
             jumpdest.insert(0, None)
         assert len(jumpdest) == 3
@@ -90,6 +90,9 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
         for args in (iftrue, iffalse):
             if args:
                 jumpdest = self.separate_args(args)
+                if len(jumpdest) > 3:
+                    E_APP_ARG_MANY(where, app=self.name, max_args=3)
+                    jumpdest = jumpdest[0:3]  # excess args are dropped
                 while len(jumpdest) != 3:
                     jumpdest.insert(0, None)
                 assert len(jumpdest) == 3
-- 
2.43.0


From d0494806be87924b2d1c76ac1aa47dadce9696fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:42 +0000
Subject: [PATCH 05/33] fix: do not crash on assignments to dynamic or unopened
 functions

---
 asterisklint/varfun.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index ebb9151..75bd980 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -194,7 +194,12 @@ class FuncLoader(metaclass=Singleton):
             # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
             # argument."
-            args = ''
+            func, args = func_and_args, ''
+
+        # See process_read_function: we cannot look up dynamic functions.
+        if isinstance(func, Var):
+            W_FUNC_DYNAMIC(where, data=func_and_args)
+            return WriteFunc(func, args)
 
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
-- 
2.43.0


From bb6e0c8923124bc3833e2fd18ac30fd5079846b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:43 +0000
Subject: [PATCH 06/33] fix: report malformed sets in patterns instead of
 crashing on them

---
 asterisklint/dialplan.py |  3 +++
 asterisklint/pattern.py  | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index adb37c3..40a5ea7 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -505,6 +505,9 @@ class DialplanVarset(object):
                 label = None
 
             pattern = pattern and Pattern(pattern, varset.where) or None
+            if pattern and not pattern.is_valid:
+                E_DP_PAT_INVALID(varset.where)
+                return None
             app = App(app, varset.where)
             return Extension(pattern, prio, label, app, varset.comment,
                              varset.where)
diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 4615a2b..f83fe74 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -141,8 +141,8 @@ class Pattern(object):
             elif num == 0x5b:           # '['
                 try:
                     range_end = raw.index(0x5d)  # ']'
-                except IndexError:
-                    # TODO: raise error!
+                except ValueError:
+                    # This is reported through is_valid.
                     ret.append((0x40000,))
                     return ret
                 ret.append(cls.parse_range_list(raw[0:range_end]))
@@ -158,10 +158,12 @@ class Pattern(object):
     @classmethod
     def parse_range_list(cls, rawlist):
         "Takes list, returns number."""
-        # TODO: check empty list?
         # TODO: complain about backslashes?
         # TODO: warn on [-0-9] (prefer [0-9-])
         usedlist = []
+        if not rawlist:
+            return (0x40000,)  # bad pattern, see is_valid
+
         while len(rawlist) >= 3:
             if rawlist[1] == 0x2d:  # rawlist[0] '-' rawlist[2]
                 a, b = rawlist[0], rawlist[2]
@@ -196,6 +198,13 @@ class Pattern(object):
 
         return (num,)
 
+    @property
+    def is_valid(self):
+        """
+        False if there is an unterminated or an empty set in the pattern.
+        """
+        return (0x40000,) not in self.values
+
     @property
     def is_canonical(self):
         if not hasattr(self, '_is_canonical'):
-- 
2.43.0


From d373696a82eff07a3e1cb2358443d9ea1a31b79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:44 +0000
Subject: [PATCH 07/33] fix: report an extension without priority instead of
 crashing on it

---
 asterisklint/dialplan.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 40a5ea7..d7ebef6 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -472,7 +472,10 @@ class DialplanVarset(object):
         if varset.variable in ('exten', 'same'):
             expect_varset_arrow(varset)
             if varset.variable == 'exten':
-                pattern, rest = varset.value.split(',', 1)
+                try:
+                    pattern, rest = varset.value.split(',', 1)
+                except ValueError:
+                    pattern, rest = varset.value, ''
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From 8d8250bef5b28189d753e2185000ce8e7871426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:45 +0000
Subject: [PATCH 08/33] fix: do not recurse forever over circular dialplan
 includes

---
 asterisklint/dialplan.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index d7ebef6..ef1903a 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -283,10 +283,17 @@ class DialplanContext(Context):
         """
         return any(label in i['labels'] for i in self.pattern_cache.values())
 
-    def match_pattern(self, extension, priority):
+    def match_pattern(self, extension, priority, visited=None):
         """
         Find the best matching extension for the priority.
+
+        The names of the contexts that we looked at are kept in visited,
+        so circular includes do no harm.
         """
+        if visited is None:
+            visited = set()
+        visited.add(self.name)
+
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
             if pattern.matches_extension(extension):
@@ -306,6 +313,8 @@ class DialplanContext(Context):
 
         # Nothing? Try our includes.
         for include in self.includes:
+            if include.context_name in visited:
+                continue
             try:
                 context = self.dialplan.get_context(include.context_name)
             except KeyError:
@@ -313,7 +322,7 @@ class DialplanContext(Context):
                 # warn about that somewhere else.
                 pass
             else:
-                ret = context.match_pattern(extension, priority)
+                ret = context.match_pattern(extension, priority, visited)
                 if ret:
                     return ret
 
-- 
2.43.0


From c8ed55059bd8841c6be04ff10bb9cb672426fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 09/33] fix: do not crash on jumps to extensions outside of
 latin1

---
 asterisklint/pattern.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index f83fe74..9b0c5c6 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -342,28 +342,30 @@ class Pattern(object):
         if self.values[0] == Pattern.NOT_A_PATTERN:
             for value in self.values[1:]:
                 assert len(value) == 1, self.values
-                ret.append(chr(value[0] & 0xff))
+                ret.append(value[0] & 0xff)
         elif self.values[0] == Pattern.IS_A_PATTERN:
             for value in self.values[1:]:
                 if value[0] == 0x18000:
-                    ret.append('0-123456789-333')  # 1+ chars
+                    ret.extend(b'0-123456789-333')  # 1+ chars
                 elif value[0] == 0x28000:
-                    ret.append('-123456789-333')  # 0+ chars
+                    ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
                 else:
-                    ret.append(chr(value[0] & 0xff))
+                    ret.append(value[0] & 0xff)
         else:
             assert False, self.values  # what pattern?
 
-        return ''.join(ret)
+        return bytes(ret).decode('utf-8', 'surrogateescape')
 
     def matches_extension(self, extension):
         """
         Check if the extension matches this pattern.
         """
         i = -1
-        for i, char in enumerate(extension.replace('-', '').encode('latin1')):
+        for i, char in enumerate(
+                extension.replace('-', '').encode(
+                    'utf-8', 'surrogateescape')):
             try:
                 value = self.values[i + 1]
             except IndexError:
-- 
2.43.0


From b848db8935d0a5c01fd41bf8e4859d0dac0f3019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:47 +0000
Subject: [PATCH 10/33] fix: do not crash when a repeated context has a comment
 or a template

---
 asterisklint/configobj.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 94f2f21..ff6b6d5 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -61,9 +61,7 @@ class Context(object):
 
     def update(self, othercontext):
         assert self.name == othercontext.name
-        assert not othercontext.comment
         self.where = othercontext.where  # or not?
-        assert not othercontext._templates
         assert not othercontext._varsets
 
     def add(self, varset):
-- 
2.43.0


From 979154fe3e8778c1d3a18453cef9a771c1932cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:05 +0000
Subject: [PATCH 11/33] fix: let a slice of a Var be a Var or a string, not a
 list

---
 asterisklint/variable.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 8fab989..5799f77 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -117,24 +117,18 @@ class Var(object):
         """
         Get an item or list of items.
 
-        If a slice is requested (and a list is returned), we attempt to
-        join the list using strjoin. Examples::
+        If a slice is requested (and a list is returned), we join the
+        list, so the result is something you can slice again. Examples::
 
-            ['A', 'B', 'C', <Var>, 'D'] ==> ['ABC', <Var>, 'D']
+            ['A', 'B', 'C', <Var>, 'D'] ==> Var.join(['ABC', <Var>, 'D'])
             ['A', 'B', 'C'] ==> 'ABC'
             ['A'] ==> 'A'
             [<Var>] ==> <Var>
-            [] ==> []
-
-        This should never be a problem because you'll be iterating over
-        the results anyway.
+            [] ==> ''
         """
         item = self._get_cached_iter().__getitem__(*args, **kwargs)
         if isinstance(item, list):
-            ret = list(strjoin(item))  # joins consecutive strings together
-            if len(ret) == 1:
-                return ret[0]
-            return ret
+            return Var.join(item)
         return item
 
     def __len__(self):
-- 
2.43.0


From 2ad69b27766f6a74850cd9508081435737c242cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:06 +0000
Subject: [PATCH 12/33] fix: do not crash when INC/DEC get a dynamic variable
 name

---
 asterisklint/varfun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 75bd980..19fe8f3 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -375,7 +375,8 @@ class VarLoader(metaclass=Singleton):
         return Expr(data)
 
     def count_var(self, varname, where):
-        assert isinstance(varname, str), varname
+        if isinstance(varname, Var):
+            return  # a dynamic name, there is nothing to check or count
 
         if not all(i in LEGAL_VAR_TOKENS for i in varname):
             E_VAR_BAD_TOKENS(where, data=varname)
-- 
2.43.0


From 00e25bf1e7a27531db8edc850fb19fe14baacad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:08 +0000
Subject: [PATCH 13/33] fix: do not crash on substrings with a dynamic offset

---
 asterisklint/varfun.py   | 4 +++-
 asterisklint/variable.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 19fe8f3..54b128d 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -421,7 +421,9 @@ class VarLoader(metaclass=Singleton):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-                if length == 0 or (start < 0 and -length <= start):
+                if length == 0 or (
+                        isinstance(start, int) and
+                        start < 0 and -length <= start):
                     length = None
                     E_VAR_SUBSTR_LENGTH(where, length=length)
             else:
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 5799f77..629648a 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -246,7 +246,7 @@ class SliceMixin(object):
         super().__init__(*args, **kwargs)
         self.start = start
         self.length = length
-        if length is not None and isinstance(length, int):
+        if isinstance(start, int) and isinstance(length, int):
             assert length != 0
             if length < 0:
                 self._endpos = length
-- 
2.43.0


From 91e8d1da1f85e00a9ceefd9de74b5ce0b345619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:51 +0000
Subject: [PATCH 14/33] fix: do not crash on ExecIf with a dynamic app or old
 style arguments

---
 asterisklint/app/vall/app_exec.py | 4 +++-
 asterisklint/application.py       | 9 +++++++--
 asterisklint/variable.py          | 6 +++---
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 2374939..8d34f1e 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -46,7 +46,9 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
-        if iftrue:
+        # The old style (see E_APP_ARG_IFSTYLE) gets us a list of args.
+        # There is no app to be found in there.
+        if iftrue and not isinstance(iftrue, list):
             App(iftrue, where=where)
         if iffalse:
             App(iffalse, where=where)
diff --git a/asterisklint/application.py b/asterisklint/application.py
index cc069c8..c7fe3d2 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -18,7 +18,7 @@ from importlib import import_module
 from .app import E_APP_MISSING
 from .cls import Singleton
 from .defines import ErrorDef, WarningDef
-from .varfun import VarLoader, VarParseError
+from .varfun import Var, VarLoader, VarParseError
 from .version import AsteriskVersion
 
 
@@ -160,12 +160,17 @@ class App(object):
         except ValueError:
             # We allow NoOp without parentheses. The others need parens.
             app = self.raw
-            if self.raw.lower() != 'noop':
+            if not isinstance(app, Var) and app.lower() != 'noop':
                 W_APP_NEED_PARENS(self.where, app=app)
             data = '()'
         else:
             data = '(' + str(data)  # data could be a Var; collapse for now
 
+        # ExecIf may pass us a dynamic application name. There is no
+        # handler to be found for that.
+        if isinstance(app, Var):
+            return False
+
         # SOURCE: pbx/pbx_config.c: pbx_load_config()
         if data.startswith('(') and data.endswith(')'):
             data = data[1:-1]
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 629648a..1894ed4 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -167,9 +167,9 @@ class Var(object):
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
-        # In case we're an atom, pretend we're a list.
-        if self.name:
-            list_ = [self.name]  # [name]  # (start, length)
+        # In case we're an atom, we're the only, indivisible, item.
+        if self.name is not None:
+            list_ = [self]
         else:
             list_ = self._list   # [contents...]  # (start, length)
 
-- 
2.43.0


From 8ab3bbcae07c631eff614dc6164f3021745590c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:53 +0000
Subject: [PATCH 15/33] fix: check the jump destinations of apps called through
 ExecIf

---
 asterisklint/app/vall/app_exec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 8d34f1e..76c0754 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -49,9 +49,11 @@ class ExecIf(VarCondIfStyleApp):
         # The old style (see E_APP_ARG_IFSTYLE) gets us a list of args.
         # There is no app to be found in there.
         if iftrue and not isinstance(iftrue, list):
-            App(iftrue, where=where)
+            jump_destinations.extend(
+                App(iftrue, where=where).jump_destinations)
         if iffalse:
-            App(iffalse, where=where)
+            jump_destinations.extend(
+                App(iffalse, where=where).jump_destinations)
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From cfb80289a346981e5f5f8277044079e844fdf12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:54 +0000
Subject: [PATCH 16/33] fix: report functions without a name instead of
 crashing on them

---
 asterisklint/varfun.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 54b128d..3fb2e70 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -137,7 +137,6 @@ class FuncLoader(metaclass=Singleton):
             if char == '(':
                 func = func_and_args[0:i]
                 break
-        assert func  # we only get here if there is a '('
 
         # Search backwards for the trailing ')'.
         tail = ''
-- 
2.43.0


From 624710b904fc864a7e0cd9311b5762c7b2de4a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:55 +0000
Subject: [PATCH 17/33] fix: do not crash on variables and expressions with an
 empty name

---
 asterisklint/expression.py | 2 +-
 asterisklint/variable.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 51cda58..652dee5 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -31,6 +31,6 @@ class Expr(Var):
         super().__init__(name=expression)
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '$[{}]'.format(self.name)
         return super().__str__()
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 1894ed4..aee4454 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -79,7 +79,7 @@ class Var(object):
             Var('${number}23').could_match('123') == True
             Var('${user}@${domain}').could_match('somelabel') == False
         """
-        if self.name:  # this is a plain variable, it could match anything
+        if self.name is not None:  # a plain variable could match anything
             return True
 
         re_joined = ''.join(
@@ -162,7 +162,7 @@ class Var(object):
         return self.name == other.name
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
@@ -220,7 +220,7 @@ class Var(object):
         return split_up
 
     def strip(self):
-        if self.name:
+        if self.name is not None:
             return self  # no (deep)copy?
 
         new_list = self._list[:]
-- 
2.43.0


From 9180df0417d3b1460ebcf8de65eaa0bf112ce501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:55 +0000
Subject: [PATCH 18/33] fix: do not crash on digits that are not decimals

---
 asterisklint/dialplan.py | 4 ++--
 asterisklint/varfun.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index ef1903a..eeb57ed 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -458,7 +458,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdigit():
+            if isinstance(g_prio, str) and g_prio.isdecimal():
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -498,7 +498,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdigit():
+            elif prio.isdecimal():
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 3fb2e70..e49d484 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -403,8 +403,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (start and (
-                    start.isdigit() or
-                    (start[0] == '-' and start[1:].isdigit()))):
+                    start.isdecimal() or
+                    (start[0] == '-' and start[1:].isdecimal()))):
                 start = int(start)
             else:
                 start = length = None
@@ -415,8 +415,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (length and (
-                    length.isdigit() or
-                    (length[0] == '-' and length[1:].isdigit()))):
+                    length.isdecimal() or
+                    (length[0] == '-' and length[1:].isdecimal()))):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-- 
2.43.0


From c37432fba5eb33387aba4a6a8c5ddc14d0c2e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 19/33] fix: show the bad substring values in the messages
 about them

---
 asterisklint/varfun.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index e49d484..440c330 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -398,6 +398,7 @@ class VarLoader(metaclass=Singleton):
             start = length = None
             E_VAR_SUBSTR_ARGS(where, data=data)
 
+        orig_start = start
         if start is not None:
             if isinstance(start, Var):
                 # We cannot determine anything more from this.
@@ -408,7 +409,7 @@ class VarLoader(metaclass=Singleton):
                 start = int(start)
             else:
                 start = length = None
-                E_VAR_SUBSTR_START(where, start=None)
+                E_VAR_SUBSTR_START(where, start=orig_start)
 
         if length is not None:
             if isinstance(length, Var):
@@ -423,8 +424,8 @@ class VarLoader(metaclass=Singleton):
                 if length == 0 or (
                         isinstance(start, int) and
                         start < 0 and -length <= start):
-                    length = None
                     E_VAR_SUBSTR_LENGTH(where, length=length)
+                    length = None
             else:
                 E_VAR_SUBSTR_LENGTH(where, length=length)
                 start = length = None
@@ -432,6 +433,6 @@ class VarLoader(metaclass=Singleton):
         # If start is 0 and there is no length, it makes no sense.
         if start == 0 and not length:
             start = None
-            E_VAR_SUBSTR_START(where, start=None)
+            E_VAR_SUBSTR_START(where, start=orig_start)
 
         return varname, start, length
-- 
2.43.0


From b8c73645449785bc68c1324f574aac7bcf332d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 20/33] fix: do not crash on bytes that are invalid in UTF-8
 and in CP1252

---
 asterisklint/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index d14a1a4..1006c56 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -98,7 +98,7 @@ class EncodingReader(object):
                 data = data.decode('utf-8')
             except UnicodeDecodeError:
                 E_FILE_UTF8_BAD(where)
-                data = data.decode('cp1252')  # or latin1? or 9?
+                data = data.decode('cp1252', 'replace')  # or latin1? or 9?
             yield where, data
 
 
-- 
2.43.0


From 6cd47c89bd7d5c76f5a9677ec91ee9dd4073ffba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:59 +0000
Subject: [PATCH 21/33] fix: let the mutator rewrite the file that a symlink
 points to

---
 asterisklint/helper/mutator.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 37c6566..b2d55aa 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -61,10 +61,7 @@ class FileMutatorBase(object):
 
     def process_file(self, filename):
         # If filename is a symlink, process the target.
-        try:
-            disk_filename = os.readlink(filename)
-        except OSError:
-            disk_filename = filename
+        disk_filename = os.path.realpath(filename)
 
         # Place the tempfile in the same dir, so renaming works
         # (same device).
-- 
2.43.0


From 320c86d600375acd4956a568efa03bccb0377005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:00 +0000
Subject: [PATCH 22/33] fix: do not leave a temporary file behind if the
 mutator fails

---
 asterisklint/helper/mutator.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index b2d55aa..433cc71 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -90,23 +90,23 @@ class FileMutatorBase(object):
                     else:
                         tempout.write(line)
             tempout.flush()
+
+            # Update file permissions.
+            srcstat = os.stat(tempout.name)
+            dststat = os.stat(filename)
+            if (srcstat.st_uid != dststat.st_uid or
+                    srcstat.st_gid != dststat.st_gid):
+                os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
+            if srcstat.st_mode != dststat.st_mode:
+                os.chmod(tempout.name, dststat.st_mode)
+
+            print('Overwriting', disk_filename, '...')
+            os.rename(tempout.name, disk_filename)
         except Exception:
             os.unlink(tempout.name)
             raise
         finally:
             tempout.close()
 
-        # Update file permissions.
-        srcstat = os.stat(tempout.name)
-        dststat = os.stat(filename)
-        if (srcstat.st_uid != dststat.st_uid or
-                srcstat.st_gid != dststat.st_gid):
-            os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
-        if srcstat.st_mode != dststat.st_mode:
-            os.chmod(tempout.name, dststat.st_mode)
-
-        print('Overwriting', disk_filename, '...')
-        os.rename(tempout.name, disk_filename)
-
     def process_issue(self, issue, inline, outfile):
         raise NotImplementedError()
-- 
2.43.0


From 605fbbcc3102a031d1a6dd5b63f4a3a15f8049d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:19 +0000
Subject: [PATCH 23/33] fix: let ident-scan output not depend on the hash seed

---
 asterisklint/commands/ident-scan.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asterisklint/commands/ident-scan.py b/asterisklint/commands/ident-scan.py
index 454325b..6b45f12 100644
--- a/asterisklint/commands/ident-scan.py
+++ b/asterisklint/commands/ident-scan.py
@@ -59,7 +59,7 @@ class Main(MainBase):
             key=(lambda x: x.lower())))
         # TODO: dialplan.all_labels is not a public interface..
         labels_by_name = list(sorted(
-            dialplan.all_labels, key=(lambda x: x.lower())))
+            dialplan.all_labels, key=(lambda x: (x.lower(), x))))
         # TODO: loader._variables is *not* a public interface..
         varlist_by_name = list(sorted(
             loader._variables.items(), key=(lambda x: x[0].lower())))
@@ -109,9 +109,9 @@ class Main(MainBase):
 
     def print_distance(self, identifiers):
         id_by_name = sorted(
-            identifiers, key=(lambda x: x.lower()))
+            identifiers, key=(lambda x: (x.lower(), x)))
         id_by_len = sorted(
-            identifiers, key=(lambda x: (len(x), x.lower())))
+            identifiers, key=(lambda x: (len(x), x.lower(), x)))
 
         similar = defaultdict(set)
         for id_list in (id_by_name, id_by_len):
@@ -138,7 +138,7 @@ class Main(MainBase):
         if similar:
             print('Identifiers with similar names include:')
             for identifier in sorted(
-                    similar.keys(), key=(lambda x: x.lower())):
+                    similar.keys(), key=(lambda x: (x.lower(), x))):
                 similar_to = ', '.join(sorted(similar[identifier]))
                 print('  {:32}  [similar to: {}]'.format(
                     identifier, similar_to))
-- 
2.43.0


From e23afb0bea69491f2f7d2230463dbc2baa3ee783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 24/33] fix: report an unknown command instead of showing a
 traceback

---
 asterisklint/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index d1071e2..5d23fe5 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -168,7 +168,7 @@ def main(args, envs):
         else:
             try:
                 command_module = load_command(command)
-            except NoSuchCommand as e:
+            except (ImportError, NoSuchCommand) as e:
                 print(e, file=sys.stderr)
                 return 1
 
-- 
2.43.0


From 9bf9e51642af3e94d6540e61171d96875a7089fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:56 +0000
Subject: [PATCH 25/33] fix: report an #include of an impossible filename, do
 not crash

---
 asterisklint/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 79ff51f..81a2baf 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -175,7 +175,7 @@ class ConfigParser(object):
             try:
                 self.include(os.path.join(os.path.dirname(where.filename),
                                           rest))
-            except OSError:
+            except (OSError, ValueError):  # ValueError on bad filenames
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
 
-- 
2.43.0


From 6e1b2a296352a81eb24ed013bc4ad3a5a68e4e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:57 +0000
Subject: [PATCH 26/33] fix: do not keep reading a file that includes itself

---
 asterisklint/config.py | 10 ++++++++--
 asterisklint/file.py   |  9 +++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 81a2baf..68a8919 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -45,6 +45,9 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
         # values.
         message = 'duplicate context found, in some cases it is legal'
 
+    class E_PP_INCLUDE_LOOP(ErrorDef):
+        message = 'the #include file {filename!r} includes itself; ignored'
+
     class W_PP_EXEC(WarningDef):
         message = 'using #exec is not recommended; command is {cmd!r}'
 
@@ -172,9 +175,12 @@ class ConfigParser(object):
             W_PP_EXEC(where, cmd=rest)
         elif cmd in ('#include', '#tryinclude'):
             error_if_not_exists = (cmd == '#include')
+            filename = os.path.join(os.path.dirname(where.filename), rest)
             try:
-                self.include(os.path.join(os.path.dirname(where.filename),
-                                          rest))
+                if self.is_including(filename):
+                    E_PP_INCLUDE_LOOP(where, filename=rest)
+                else:
+                    self.include(filename)
             except (OSError, ValueError):  # ValueError on bad filenames
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
diff --git a/asterisklint/file.py b/asterisklint/file.py
index 1006c56..d75316c 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -13,6 +13,8 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
+import os
+
 from .defines import ErrorDef, WarningDef
 from .where import Where
 
@@ -74,6 +76,13 @@ class BinFileReader(object):
         self._generators.append(enumerate(fp))
         self._filenames.append(fp.name)
 
+    def is_including(self, filename):
+        """
+        Whether we're still in the middle of reading the file.
+        """
+        return os.path.realpath(filename) in [
+            os.path.realpath(i) for i in self._filenames]
+
     def __iter__(self):
         while self._generators:
             try:
-- 
2.43.0


From fb27728a18c318da9b2c517b252fa3b50a8eb78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:59 +0000
Subject: [PATCH 27/33] fix: do not show messages of a failed web request to
 the next one

---
 web/wsgi.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/web/wsgi.py b/web/wsgi.py
index 9896db9..64c9f3b 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -122,6 +122,9 @@ class DialplanCheck:
         filedata = req.media['files'][filename].encode('utf-8')
         opener = UploadedFileOpener(filename, filedata)
 
+        # Drop any messages of a previous request that failed halfway.
+        MessageDefManager.reset()
+
         parser = FileDialplanParser(opener=opener)
         parser.include(filename)
         dialplan = next(iter(parser))
-- 
2.43.0


From 26f4a4a88f419c10d62fea46aac8f17fa4734cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:00 +0000
Subject: [PATCH 28/33] fix: do not look up jumps to a dynamic slice as if it
 were unsliced

---
 asterisklint/variable.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index aee4454..963c4d1 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -283,6 +283,9 @@ class VarDynSlice(Var):
         self.start = start
         self.length = length
 
+    def format(self, **kwargs):
+        raise KeyError(str(self))  # we know too little of the slice
+
     def __str__(self):
         if self.length:
             return '${{{}:{}:{}}}'.format(
-- 
2.43.0


From 62f9db6fafc3513a86782164b2cbcfc54189a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:01 +0000
Subject: [PATCH 29/33] fix: do not crash on func_odbc functions with an
 impossible name

---
 asterisklint/func_odbc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index 5e67bad..712c649 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -46,6 +46,13 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 
 
 class FuncOdbcFunc(FuncBase):
+    def __init__(self, name):
+        self._name = name
+
+    @property
+    def name(self):
+        return self._name
+
     @property
     def module(self):
         # This would be correct automatically, since this module is
@@ -236,9 +243,7 @@ class OdbcFunction(Context):
 
     def finalize_register(self):
         # Register the custom function.
-        odbc_function_class = type(
-            self.get_function_name(), (FuncOdbcFunc,), {})
-        FuncLoader().register(odbc_function_class())
+        FuncLoader().register(FuncOdbcFunc(self.get_function_name()))
 
 
 class FuncOdbcAggregator(ConfigAggregator):
-- 
2.43.0


From 22c777e658cef332584ea470935a824763027131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:02 +0000
Subject: [PATCH 30/33] fix: do not match extensions that are longer than the
 pattern

---
 asterisklint/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 9b0c5c6..3e6cf06 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -371,8 +371,10 @@ class Pattern(object):
             except IndexError:
                 return False  # extension is longer than pattern
 
-            if value[0] in (0x18000, 0x28000, 0x30000):
+            if value[0] in (0x18000, 0x28000):
                 return True
+            elif value[0] == 0x30000:
+                return False  # extension is longer than pattern
             elif len(value) == 2:
                 if char not in value[1]:
                     return False
-- 
2.43.0


From e17db153e3e5f3f30928fb68d6e8520567fb4c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:41 +0000
Subject: [PATCH 31/33] fix: pass on the blank lines at the end of included
 files

They were lost if the including file ended with the include directive.
---
 asterisklint/configws.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asterisklint/configws.py b/asterisklint/configws.py
index 62d31f2..d5ddf83 100644
--- a/asterisklint/configws.py
+++ b/asterisklint/configws.py
@@ -130,9 +130,9 @@ class VswContext(object):
                 yield blank
 
         # Check tail whitespace and report on that.
+        for blank in eof_blanks:
+            yield blank
         if eof_blanks and report_eof_blanks:
-            for blank in eof_blanks:
-                yield blank
             W_WSV_EOF(self.blanks[-1].where)
 
     def group_blanks(self, blanks):
-- 
2.43.0


From ea8182a1988cfb128137047289fefe0564fe1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:19 +0000
Subject: [PATCH 32/33] fix: ExecIf: do not parse the variables of its
 application twice

Missing functions were reported twice and variables counted twice.
---
 asterisklint/application.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asterisklint/application.py b/asterisklint/application.py
index c7fe3d2..411a0e2 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -144,7 +144,8 @@ class App(object):
         """
         # SOURCE: main/pbx.c: pbx_extension_helper, calls
         # SOURCE: main/pbx.c: pbx_parse_variables_helper_full.
-        if '${' in data or '$[' in data:
+        # (If data is a Var, then ExecIf got it, already parsed.)
+        if not isinstance(data, Var) and ('${' in data or '$[' in data):
             try:
                 data = VarLoader().parse_variables(data, self.where)
             except VarParseError:
@@ -164,7 +165,7 @@ class App(object):
                 W_APP_NEED_PARENS(self.where, app=app)
             data = '()'
         else:
-            data = '(' + str(data)  # data could be a Var; collapse for now
+            data = Var.join(['(', data])  # data could be a Var
 
         # ExecIf may pass us a dynamic application name. There is no
         # handler to be found for that.
@@ -172,7 +173,7 @@ class App(object):
             return False
 
         # SOURCE: pbx/pbx_config.c: pbx_load_config()
-        if data.startswith('(') and data.endswith(')'):
+        if data[0] == '(' and data[-1] == ')':
             data = data[1:-1]
 
         # Set it and try to find a handler for it.
-- 
2.43.0


From dd9a3208d189080490d609c73302b1869f2f4b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:48 +0000
Subject: [PATCH 33/33] fix: The chosen spelling of Background is forgotten
 before the next dialplan

---
 asterisklint/app/base.py         | 7 +++++++
 asterisklint/app/vall/builtin.py | 3 +++
 asterisklint/application.py      | 7 +++++++
 asterisklint/dialplan.py         | 3 ++-
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index dc8596b..58dc623 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -73,6 +73,13 @@ class AppBase(object):
         except ValueError:
             W_APP_BALANCE(where, data=str(data))
 
+    def reset(self):
+        """
+        Subclasses that remember things about a dialplan should forget
+        them here, before the next dialplan is read.
+        """
+        pass
+
     def check_availability(self, supplied_name, where):
         if self.name == supplied_name:
             pass
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 84a50dd..b59688d 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -45,6 +45,9 @@ class Background(BuiltinAppBase):
     def name(self):
         return self.chosen_spelling or super().name
 
+    def reset(self):
+        self.chosen_spelling = None
+
     def check_availability(self, supplied_name, where):
         if not self.chosen_spelling and supplied_name in (
                 'Background', 'BackGround'):
diff --git a/asterisklint/application.py b/asterisklint/application.py
index 411a0e2..d4d94a0 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -83,6 +83,13 @@ class AppLoader(metaclass=Singleton):
         lower_app = app.name.lower()
         self._lower_apps[lower_app] = app
 
+    def reset(self):
+        """
+        Let the apps forget what they remember about a previous dialplan.
+        """
+        for app in self._lower_apps.values():
+            app.reset()
+
 
 class App(object):
     # App heeft weer z'n eigen parsers en subparsers. Hiermee moeten we ook
diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index eeb57ed..a2c90ed 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -13,7 +13,7 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
-from .application import App
+from .application import App, AppLoader
 from .config import ConfigAggregator, Context, Varset
 from .config import (
     E_CONF_CTX_MISSING, E_CONF_KEY_INVALID, H_CONF_NO_ARROW, W_CONF_CTX_DUPE)
@@ -587,6 +587,7 @@ class Extension(Varset):
 
 class DialplanAggregator(ConfigAggregator):
     def on_begin(self):
+        AppLoader().reset()
         self._dialplan = Dialplan()
         self._prevcontexts = {}
         self._curcontext = None
-- 
2.43.0

