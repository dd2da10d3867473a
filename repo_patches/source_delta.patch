From 41dcd37558eabe514dd8ed00992b0485b9e9c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 01/27] fix: the logical 'and' of two values is a bool

---
 src/wizard/value.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/value.py b/src/wizard/value.py
index dfa784a..6bf8163 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -260,7 +260,7 @@ class Value(Generic[ValueType]):
         return Value(bool(self._value or other._value))
 
     def __and__(self, other: Value[Any]) -> Value[bool]:
-        return Value(self._value and other._value)
+        return Value(bool(self._value and other._value))
 
     def __gt__(self: Value[Any], other: Value[Any]) -> Value[bool]:
         if isinstance(self._value, (int, float)) and isinstance(
-- 
2.43.0


From d2879b7b6b9a2ebdd6b5be5b10a756398706975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 02/27] fix: Continue finds the enclosing loop

---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 08829d8..b6c7a21 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -396,7 +396,9 @@ class WizardContinueContext(
         # Find the first parent loop:
         loop: WizardInterpreterContext[ContextState, Any] = self
 
-        while loop.is_top_level() and not isinstance(loop, WizardContinuableContext):
+        while not loop.is_top_level() and not isinstance(
+            loop, WizardContinuableContext
+        ):
             loop = loop.parent
 
         if not isinstance(loop, WizardContinuableContext):
-- 
2.43.0


From d893057fec39f657c68992311a0ef5b06e59b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 03/27] fix: a For range with a negative step includes its end

---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index b6c7a21..7e02cf4 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -507,7 +507,9 @@ class WizardForLoopContext(
         else:
             by = Value(1)
 
-        return [Value(i) for i in range(sta.value, end.value + 1, by.value)]
+        # The end is included, whatever the direction:
+        offset = 1 if by.value > 0 else -1
+        return [Value(i) for i in range(sta.value, end.value + offset, by.value)]
 
     def _for_in_header(
         self, ctx: wizardParser.ForInHeaderContext
-- 
2.43.0


From a1daa96457de6686ccf4eada4d2bbfe774de5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 04/27] fix: severity contexts do not share their settings

---
 src/wizard/severity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/severity.py b/src/wizard/severity.py
index 5277dbd..e9fce52 100644
--- a/src/wizard/severity.py
+++ b/src/wizard/severity.py
@@ -29,9 +29,10 @@ class Issue(Enum):
 
 class SeverityContext:
     _default_severity: Severity
-    _context: MutableMapping[Issue, Severity] = {}
+    _context: MutableMapping[Issue, Severity]
 
     def __init__(self):
+        self._context = {}
         self._default_severity = Severity.WARNING
 
     @abstractmethod
-- 
2.43.0


From b7d1b8bf9d055cc4f0ab70d64e91e70634a51eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 05/27] fix: ResetPluginName ignores the case of the plugin
 name

---
 src/wizard/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 7284097..341c695 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -288,7 +288,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The original name of the plugin.
         """
-        if name in state._renames:
+        if Plugin(name) in state._renames:
             del state._renames[Plugin(name)]
 
     def visitSelectAll(
-- 
2.43.0


From a95d329051464babb55e07efe1c0576462714f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 06/27] fix: deleting twice a key of a stacked mapping is a
 KeyError

---
 src/wizard/utils/mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/utils/mappings.py b/src/wizard/utils/mappings.py
index be9c89d..179f3e9 100644
--- a/src/wizard/utils/mappings.py
+++ b/src/wizard/utils/mappings.py
@@ -28,7 +28,7 @@ class StackMutableMapping(MutableMapping[K, V]):
             del self._variables[item]
 
         # If item is not in the parent:
-        elif self._parent is None or item not in self._parent:
+        elif item not in self:
             raise KeyError(item)
 
         self._deleted.add(item)
-- 
2.43.0


From cfbd0aafea1ec8b0d3e6084fbe6ba2776bc44859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:24 +0000
Subject: [PATCH 07/27] fix: falling through to Default without Break
 terminates

---
 src/wizard/contexts/contexts.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 7e02cf4..77c3339 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -927,6 +927,9 @@ class WizardSelectCasesContext(
         # No cases remaining, default, and not found:
         elif self._default and (self._fallthrough or not self._found):
             snext._found = True
+
+            # The default is the last case, nothing to fall through to:
+            snext._fallthrough = False
             return self._factory.make_case_context(self._default, snext)
 
         # No need to copy from snext since if we reach this return statement, nothing
-- 
2.43.0


From a87dc4e5708cbcc4ec6c5151e41d70c0e732791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:30 +0000
Subject: [PATCH 08/27] fix: functions accept missing optional and additional
 variable arguments

---
 src/wizard/functions.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 20aaf7b..6c40778 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -142,8 +142,15 @@ def wrap_function(
         if not varargs and len(vs) > len(args):
             raise TypeError(f"{name}: too many arguments.")
 
-        for iarg, arg in enumerate(args):
-            if iarg >= len(vs) and not isinstance(arg, optional):
+        # extra arguments have the type of the last one
+        types = args
+        if varargs:
+            types += args[-1:] * (len(vs) - len(args))
+
+        for iarg, arg in enumerate(types):
+            if iarg >= len(vs):
+                if isinstance(arg, optional):
+                    break
                 raise TypeError(f"{name}: missing required positional argument(s).")
 
             tp: type
@@ -199,7 +206,11 @@ def make_basic_functions() -> dict[str, WizardFunction]:
         fns[fname] = wrap_function(
             fname.rstrip("_"),
             getattr(wf, fname),
-            *(object for _ in range(len(sig.parameters) - varargs)),
+            *(
+                object if p.default is p.empty else optional(object)
+                for p in sig.parameters.values()
+                if p.kind is not p.VAR_POSITIONAL
+            ),
             varargs=varargs,
             rawargs=True,
         )
-- 
2.43.0


From 31c6e6766b26add96a863d9057ecec161be27009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:31 +0000
Subject: [PATCH 09/27] fix: scripts cannot call the internal methods of the
 expression visitor

---
 src/wizard/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 3e2b5e6..4e5a907 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -101,7 +101,9 @@ class WizardExpressionVisitor:
         if name in self._functions:
             function = self._functions[name]
             is_visit = False
-        elif hasattr(self, "visit" + name):
+        elif hasattr(self, "visit" + name) and not hasattr(
+            WizardExpressionVisitor, "visit" + name
+        ):
             function = getattr(self, "visit" + name)
             is_visit = True
         else:
-- 
2.43.0


From 9f4bf40d6714191a29745093c86f814f431074ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:31 +0000
Subject: [PATCH 10/27] fix: Exec keeps the side effects of its argument

---
 src/wizard/contexts/contexts.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 77c3339..4fe5ae7 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -434,7 +434,9 @@ class WizardExecContext(
             we._ctx = self.context  # type: ignore
             raise we
 
-        return WizardTopLevelContext(self._factory, context, self.parent, state)
+        return WizardTopLevelContext(
+            self._factory, context, self._factory.copy_parent(self, state), state
+        )
 
 
 class WizardIfContext(
-- 
2.43.0


From 357f9fa9b6b194d30f16c1f9dbf9e96cdedaf252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:31 +0000
Subject: [PATCH 11/27] fix: SelectOne and SelectMany keep the side effects of
 their options

---
 src/wizard/contexts/contexts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 4fe5ae7..4f734bf 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -749,7 +749,7 @@ class WizardSelectContext(
     ) -> WizardSelectCasesContext[ContextState, _SelectOneOrManyRuleContext]:
         # This completely delegates to the other context:
         return self._factory.make_select_cases_context(
-            self._selected, self.context, self.parent
+            self._selected, self.context, self._factory.copy_parent(self)
         )
 
 
-- 
2.43.0


From fc45f75281aed725f2943a187afd6da63510cd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:31 +0000
Subject: [PATCH 12/27] fix: the last arguments of RequireVersions are optional

---
 src/wizard/contexts/keywords.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 12297cb..5b9286e 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -44,7 +44,8 @@ class _WizardKeywordContext(
             for ex in self.context.argList().expr()
         ]
 
-        n_arg_none = sum(int(isinstance(None, t)) for t in types)
+        # object (e.g. in Note) is any value, not an optional argument
+        n_arg_none = sum(int(t is not object and isinstance(None, t)) for t in types)
         min_args = len(types) - n_arg_none
         max_args = len(types)
 
@@ -58,21 +59,13 @@ class _WizardKeywordContext(
                 self._context,
                 f"Keyword {keyword}: too many arguments, expected {len(types)}.",
             )
-        elif len(arglist) < len(types):
-            raise WizardTypeError(
-                self._context,
-                f"Keyword {keyword}: not enough arguments, expected {len(types)}.",
-            )
 
         # extract value from arguments and pad with None to reach the exact number of
         # arguments
         args = tuple(arg.value for arg in arglist)
         args += (None,) * (len(types) - len(args))
 
-        return cast(
-            "tuple[*_Args]",
-            tuple(arg.value for arg in arglist),
-        )
+        return cast("tuple[*_Args]", args)
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-- 
2.43.0


From fc2f6712d0888582b10799db0c54e7cfd49ce902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:31 +0000
Subject: [PATCH 13/27] fix: keywords evaluate their arguments once and keep
 the side effects

---
 src/wizard/contexts/keywords.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 5b9286e..8baaf57 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -37,10 +37,12 @@ class _WizardKeywordContext(
     @abstractmethod
     def _visit(self, state: ContextState, *args: *_Args) -> None: ...
 
-    def _get_args(self, types: Sequence[type]) -> tuple[*_Args]:
+    def _get_args(
+        self, types: Sequence[type], state: ContextState
+    ) -> tuple[*_Args]:
         keyword = self.context.Keyword().getText()
         arglist = [
-            self._factory.evisitor.visitExpr(ex, self.state)
+            self._factory.evisitor.visitExpr(ex, state)
             for ex in self.context.argList().expr()
         ]
 
@@ -69,7 +71,7 @@ class _WizardKeywordContext(
 
     def exec_(self) -> WizardInterpreterContext[ContextState, Any]:
         state = self.state.copy()
-        self._visit(state, *self._get_args(self._argtypes))
+        self._visit(state, *self._get_args(self._argtypes, state))
         return self._factory.copy_parent(self, state)
 
 
@@ -169,7 +171,9 @@ class WizardRequireVersionsContext(
     ):
         super().__init__(factory, context, parent, state)
 
-        self._args = self._get_args(self._argtypes)
+        # weird stuff to please type checkers
+        gv, sew, gew, wbv = super()._get_args(self._argtypes, self.state)
+        self._args = (gv, sew or None, gew or None, wbv or None)
 
     # these property are useful to use the interpreter
     @property
@@ -189,11 +193,10 @@ class WizardRequireVersionsContext(
         return self._args[3]
 
     def _get_args(
-        self, types: Sequence[type]
+        self, types: Sequence[type], state: ContextState
     ) -> tuple[str, str | None, str | None, str | None]:
-        # weird stuff to please type checkers
-        gv, sew, gew, wbv = super()._get_args(types)
-        return (gv, sew or None, gew or None, wbv or None)
+        # already evaluated by the constructor
+        return self._args
 
     def _visit(
         self,
-- 
2.43.0


From 24c503b43ae8984529fcd77df609e8696116eccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:50 +0000
Subject: [PATCH 14/27] fix: a sub-package or plugin selected twice is only
 selected once

---
 src/wizard/runner.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 341c695..73a1f73 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -309,7 +309,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
         """
         # Guess we only select plugins from selected subpackages?
-        state._plugins = [pg for sp in state._subpackages for pg in sp.plugins()]
+        # use a dictionary to keep insertion order and remove duplicates
+        plugins = {pg: True for sp in state._subpackages for pg in sp.plugins()}
+        state._plugins = list(plugins.keys())
 
     def visitSelectPlugin(
         self,
@@ -332,7 +334,8 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             )
             return
 
-        state._plugins.append(self._plugins[ipg])
+        if self._plugins[ipg] not in state._plugins:
+            state._plugins.append(self._plugins[ipg])
 
     def visitSelectSubPackage(
         self,
@@ -358,8 +361,10 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             return
 
         subpackage = self._subpackages[isp]
-        state._subpackages.append(subpackage)
+        if subpackage not in state._subpackages:
+            state._subpackages.append(subpackage)
 
         # Auto-select plugins?
         for plugin in subpackage.plugins():
-            state._plugins.append(plugin)
+            if plugin not in state._plugins:
+                state._plugins.append(plugin)
-- 
2.43.0


From 53e102d86000e247e8ce4ce727cbb73f79edd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:00 +0000
Subject: [PATCH 15/27] fix: bad and non-ASCII characters in string escapes

---
 src/wizard/expr.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 4e5a907..9f116c8 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -23,7 +23,9 @@ class WizardExpressionVisitor:
     which takes an expression context and returns a `Value`.
     """
 
-    BAD_ESCAPE_SEQUENCE = re.compile(r"(^|(?<=[^\\]))\\(?=[^abfnrtuUx0-7\\])")
+    BAD_ESCAPE_SEQUENCE = re.compile(
+        r"(?<!\\)((?:\\\\)*)\\(?=[^abfnrtuUx0-7\\])"
+    )
 
     _subpackages: SubPackages
     _functions: Mapping[
@@ -361,10 +363,11 @@ class WizardExpressionVisitor:
         txt = ctx.getText()[1:-1]
 
         # Remove bad escape sequences:
-        txt = self.BAD_ESCAPE_SEQUENCE.sub("", txt)
+        txt = self.BAD_ESCAPE_SEQUENCE.sub(r"\1", txt)
 
         # Replace escape sequences by Python escape sequences:
-        txt = codecs.decode(txt, "unicode_escape")
+        # (the codec works on Latin-1 bytes, escape everything else)
+        txt = codecs.decode(txt.encode("latin-1", "backslashreplace"), "unicode_escape")
 
         return Value(txt)
 
-- 
2.43.0


From ab6523c272d8e3f4457b0f079f9ca9185d631631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:02 +0000
Subject: [PATCH 16/27] fix: rewind from the cancel and error callbacks of a
 script runner

---
 src/wizard/scriptrunner.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/wizard/scriptrunner.py b/src/wizard/scriptrunner.py
index 058acee..7586804 100644
--- a/src/wizard/scriptrunner.py
+++ b/src/wizard/scriptrunner.py
@@ -189,12 +189,19 @@ class WizardScriptRunner(
             except WizardScriptRunner.RewindFlow as rfex:
                 ctx = rfex.context
 
+            # The callbacks below can also rewind:
             except WizardScriptRunner.CancelFlow:
-                if self.cancel():
-                    return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+                try:
+                    if self.cancel():
+                        return (WizardScriptRunnerStatus.CANCEL, ctx.state)
+                except WizardScriptRunner.RewindFlow as rfex:
+                    ctx = rfex.context
 
             except Exception as ex:
-                self.error(ex)
-                return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                try:
+                    self.error(ex)
+                    return (WizardScriptRunnerStatus.ERROR, ctx.state)
+                except WizardScriptRunner.RewindFlow as rfex:
+                    ctx = rfex.context
 
         return (WizardScriptRunnerStatus.COMPLETE, ctx.state)
-- 
2.43.0


From 2a2b7c70913907084550703d3abbacb373e98dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 17/27] fix: incomplete For headers and options of Select are
 parse errors

---
 src/wizard/contexts/contexts.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 4f734bf..e09beb3 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -484,6 +484,15 @@ class WizardForLoopContext(
     ):
         super().__init__(factory, context, parent, state)
 
+        # The header is evaluated below, so check that it has been parsed:
+        for ctx in (
+            self.context,
+            self.context.forInHeader(),
+            self.context.forRangeHeader(),
+        ):
+            if ctx and ctx.exception:
+                raise WizardParseError(ctx, ctx.exception)
+
         if self.context.forInHeader():
             self._values = self._for_in_header(self.context.forInHeader())
         else:
@@ -645,6 +654,11 @@ def parse_select_options(
     context: wizardParser.SelectOneContext | wizardParser.SelectManyContext,
     state: ContextState,
 ) -> tuple[str, list[SelectOption], list[SelectOption]]:
+    # The options are evaluated below, so check that they have been parsed:
+    for ctx in (context, *context.optionTuple()):
+        if ctx.exception:
+            raise WizardParseError(ctx, ctx.exception)
+
     # Parse the description and option:
     description = factory.evisitor.visitExpr(context.expr(), state, str).value
 
-- 
2.43.0


From 1b946e5f52c0691246aeafacf78454af056a188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:28 +0000
Subject: [PATCH 18/27] fix: in: compares regardless of case

The colon of 'in:' is skipped by the error recovery of the parser, so the
operator was the same as 'in'.
---
 src/wizard/expr.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 9f116c8..2670612 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -140,8 +140,14 @@ class WizardExpressionVisitor:
     def visitIn(
         self, ctx: wizardParser.InContext, state: WizardInterpreterState
     ) -> Value[bool]:
-        return self.visitExpr(ctx.expr(1), state).contains(
-            self.visitExpr(ctx.expr(0), state), bool(ctx.Colon())
+        # The grammar expects the colon of 'in:' after the right-hand side, otherwise
+        # the parser skips it as the first token of the right-hand side.
+        rhs = ctx.expr(1)
+        case_insensitive = bool(ctx.Colon()) or (
+            rhs.start is not None and rhs.start.type == wizardParser.Colon
+        )
+        return self.visitExpr(rhs, state).contains(
+            self.visitExpr(ctx.expr(0), state), case_insensitive
         )
 
     def doCmp(
-- 
2.43.0


From 376dc096ae41ea4bb7f1fd6e4ea8452768d17f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 19/27] fix: a Select statement with a broken case is a parse
 error

---
 src/wizard/contexts/factory.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/wizard/contexts/factory.py b/src/wizard/contexts/factory.py
index 1bbf72c..e35b7e5 100644
--- a/src/wizard/contexts/factory.py
+++ b/src/wizard/contexts/factory.py
@@ -7,6 +7,7 @@ from typing import Any, Generic, TypeVar
 from antlr4 import ParserRuleContext
 
 from ..antlr4.wizardParser import wizardParser
+from ..errors import WizardParseError
 from ..expr import WizardExpressionVisitor
 from ..keywords import WizardKeywordVisitor
 from ..manager import SelectOption
@@ -214,6 +215,10 @@ class WizardInterpreterContextFactory(Generic[ContextState]):
         context: wizardParser.SelectStmtContext,
         parent: WizardInterpreterContext[ContextState, Any],
     ) -> WizardSelectOneContext[ContextState] | WizardSelectManyContext[ContextState]:
+        # A broken case belongs to the statement itself:
+        if context.exception:
+            raise WizardParseError(context, context.exception)
+
         if context.selectOne():
             return WizardSelectOneContext(self, context.selectOne(), parent)
         else:
-- 
2.43.0


From 00bcfc11282a117cb0d5ab03c9e79daf9eeb1a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 20/27] fix: broken arguments of a keyword are a parse error

---
 src/wizard/contexts/keywords.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/keywords.py b/src/wizard/contexts/keywords.py
index 8baaf57..b83b35e 100644
--- a/src/wizard/contexts/keywords.py
+++ b/src/wizard/contexts/keywords.py
@@ -5,7 +5,7 @@ from collections.abc import Sequence
 from typing import TYPE_CHECKING, Any, Generic, TypeVarTuple, cast
 
 from ..antlr4.wizardParser import wizardParser
-from ..errors import WizardNameError, WizardTypeError
+from ..errors import WizardNameError, WizardParseError, WizardTypeError
 from ..severity import Issue
 from ..value import AnyValueType, VariableType
 from .contexts import ContextState, WizardInterpreterContext
@@ -40,10 +40,15 @@ class _WizardKeywordContext(
     def _get_args(
         self, types: Sequence[type], state: ContextState
     ) -> tuple[*_Args]:
+        # The arguments are evaluated below, so check that they have been parsed:
+        args_ctx = self.context.argList()
+        if args_ctx.exception:
+            raise WizardParseError(args_ctx, args_ctx.exception)
+
         keyword = self.context.Keyword().getText()
         arglist = [
             self._factory.evisitor.visitExpr(ex, state)
-            for ex in self.context.argList().expr()
+            for ex in args_ctx.expr()
         ]
 
         # object (e.g. in Note) is any value, not an optional argument
-- 
2.43.0


From da606905c920f8b4574a49dfc796f56ca1891e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:41 +0000
Subject: [PATCH 21/27] fix: SelectOne without options is an error of the
 statement

---
 src/wizard/contexts/contexts.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index e09beb3..70b90f6 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -687,6 +687,10 @@ def parse_select_options(
 
     # Not default in SelectOne -> Select first one.
     if not isinstance(context, wizardParser.SelectManyContext) and not defaults:
+        if not options:
+            raise WizardTypeError(
+                context, "SelectOne statement should have at least one option."
+            )
         defaults.append(options[0])
 
     return description, options, defaults
-- 
2.43.0


From eea90dc1713f39b1cbe13742a40e3e8953a4c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:35 +0000
Subject: [PATCH 22/27] fix: the left-hand side of 'in' is evaluated before its
 right-hand side

---
 src/wizard/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index 2670612..a792003 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -146,9 +146,9 @@ class WizardExpressionVisitor:
         case_insensitive = bool(ctx.Colon()) or (
             rhs.start is not None and rhs.start.type == wizardParser.Colon
         )
-        return self.visitExpr(rhs, state).contains(
-            self.visitExpr(ctx.expr(0), state), case_insensitive
-        )
+        # the left-hand side is evaluated first, as for other operators
+        lhs = self.visitExpr(ctx.expr(0), state)
+        return self.visitExpr(rhs, state).contains(lhs, case_insensitive)
 
     def doCmp(
         self,
-- 
2.43.0


From 56a6e733f0becd83c148076f58eb37d78c8dbc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:11 +0000
Subject: [PATCH 23/27] fix: functions wrapped with rawargs returned a bare
 Void when their method returned nothing

---
 src/wizard/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wizard/functions.py b/src/wizard/functions.py
index 6c40778..d313620 100644
--- a/src/wizard/functions.py
+++ b/src/wizard/functions.py
@@ -175,7 +175,7 @@ def wrap_function(
         if ret is None:
             ret = Void()
 
-        if not rawargs:
+        if not rawargs or isinstance(ret, Void):
             ret = Value(ret)
 
         return cast(Value[Any], ret)
-- 
2.43.0


From 1fd9fadac3b78d068f277a1e14c9f48c48a9b6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 24/27] fix: keywords given something else than a name raise a
 type error

---
 src/wizard/runner.py | 18 ++++++++++--------
 src/wizard/value.py  |  2 ++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/wizard/runner.py b/src/wizard/runner.py
index 73a1f73..4200436 100644
--- a/src/wizard/runner.py
+++ b/src/wizard/runner.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping, MutableMapping, Sequence
-from typing import Any, cast
+from typing import Any
 
 from .contexts import WizardKeywordContext
 from .errors import WizardMissingPackageError, WizardMissingPluginError
@@ -205,8 +205,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The name of the plugin to de-select.
         """
-        if name in state.plugins:
-            state._plugins.remove(Plugin(name))
+        plugin = Plugin(name)
+        if plugin in state._plugins:
+            state._plugins.remove(plugin)
 
     def visitDeSelectSubPackage(
         self,
@@ -219,8 +220,9 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             state: The interpreter state to update.
             name: The name of the subpackage to de-select.
         """
-        if name in state.subpackages:
-            state._subpackages.remove(SubPackage(name))
+        subpackage = SubPackage(name)
+        if subpackage in state._subpackages:
+            state._subpackages.remove(subpackage)
 
     def visitNote(
         self,
@@ -248,7 +250,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             original_name: The original name of the plugin.
             new_name: The new name of the plugin.
         """
-        state._renames[Plugin(original_name)] = new_name
+        state._renames[Plugin(original_name)] = Plugin(new_name).name
 
     def visitRequireVersions(
         self,
@@ -325,7 +327,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
             name: The name of the plugin to select.
         """
         try:
-            ipg = self._plugins.index(cast(Plugin, name))
+            ipg = self._plugins.index(Plugin(name))
         except ValueError:
             self._severity.raise_or_warn(
                 Issue.SELECT_MISSING_PLUGIN,
@@ -351,7 +353,7 @@ class WizardRunnerKeywordVisitor(WizardKeywordVisitor[WizardRunnerState]):
 
         # Find the package:
         try:
-            isp = self._subpackages.index(name)  # type: ignore
+            isp = self._subpackages.index(SubPackage(name))
         except ValueError:
             self._severity.raise_or_warn(
                 Issue.SELECT_MISSING_SUBPACKAGE,
diff --git a/src/wizard/value.py b/src/wizard/value.py
index 6bf8163..5030790 100644
--- a/src/wizard/value.py
+++ b/src/wizard/value.py
@@ -14,6 +14,8 @@ class CaseFoldNamedObject:
     def __init__(self, name: str | CaseFoldNamedObject):
         if isinstance(name, CaseFoldNamedObject):
             name = name.name
+        if not isinstance(name, str):  # type: ignore
+            raise TypeError(f"Expected a name, got {type(name)}.")
         self._name = name
 
     @property
-- 
2.43.0


From 2130336d5554613e2c835ac5151750b390a00e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 25/27] fix: an empty script file was a Python TypeError

---
 src/wizard/utils/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wizard/utils/__init__.py b/src/wizard/utils/__init__.py
index de148d8..0db4ea1 100644
--- a/src/wizard/utils/__init__.py
+++ b/src/wizard/utils/__init__.py
@@ -103,7 +103,8 @@ def make_parse_wizard_context(
         else:
             data = script.read()  # type: ignore
         if isinstance(data, bytes):
-            encoding = chardet.detect(data)["encoding"]
+            # no encoding is detected for an empty file
+            encoding = chardet.detect(data)["encoding"] or "utf-8"
             text = data.decode(encoding)
         else:
             text = data
-- 
2.43.0


From f34554e71b5bc22a0a5fe1b68ace8e3656eca05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:38 +0000
Subject: [PATCH 26/27] fix: copies of a top-level context are top-level and
 use the given state

---
 src/wizard/contexts/contexts.py | 5 +++--
 src/wizard/contexts/factory.py  | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/wizard/contexts/contexts.py b/src/wizard/contexts/contexts.py
index 70b90f6..f8676d6 100644
--- a/src/wizard/contexts/contexts.py
+++ b/src/wizard/contexts/contexts.py
@@ -232,8 +232,9 @@ class WizardTopLevelContext(
 
     def exec_(self) -> WizardBodyContext[ContextState]:
         # We forward the parent, which is either self (no parent) or the parent body
-        # for Exec().
-        return self._factory.make_body_context(self.context.body(), self.parent)
+        # for Exec(), in the state of this context.
+        parent = self if self.is_top_level() else self._factory.copy_parent(self)
+        return self._factory.make_body_context(self.context.body(), parent)
 
 
 class WizardCancelContext(
diff --git a/src/wizard/contexts/factory.py b/src/wizard/contexts/factory.py
index e35b7e5..16af896 100644
--- a/src/wizard/contexts/factory.py
+++ b/src/wizard/contexts/factory.py
@@ -91,7 +91,11 @@ class WizardInterpreterContextFactory(Generic[ContextState]):
         Returns:
             A copy of this context.
         """
+        top_level = context.is_top_level()
         context = copy.copy(context)
+        if top_level:
+            # a top-level context is its own parent
+            context._parent = context  # pyright: ignore[reportPrivateUsage]
         if state is None:
             context._state = context._state.copy()  # pyright: ignore[reportPrivateUsage]
         else:
-- 
2.43.0


From 7299f2cce6977f7df6212ed82128bc82840abfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:23 +0000
Subject: [PATCH 27/27] fix: incomplete escape sequences in string literals are
 no escapes

---
 src/wizard/expr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/wizard/expr.py b/src/wizard/expr.py
index a792003..4f9a19a 100644
--- a/src/wizard/expr.py
+++ b/src/wizard/expr.py
@@ -24,7 +24,9 @@ class WizardExpressionVisitor:
     """
 
     BAD_ESCAPE_SEQUENCE = re.compile(
-        r"(?<!\\)((?:\\\\)*)\\(?=[^abfnrtuUx0-7\\])"
+        r"(?<!\\)((?:\\\\)*)\\"
+        r"(?![abfnrt0-7\\]|x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}"
+        r"|U(?:000[0-9a-fA-F]|0010)[0-9a-fA-F]{4})"
     )
 
     _subpackages: SubPackages
-- 
2.43.0

