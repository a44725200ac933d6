From 03b1d0d9c213f2ca41b43fe7b20e6dd0ef6c66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:46 +0000
Subject: [PATCH 01/68] fix: dyn: inherited dynamic scopes are copied to a new
 thread, not shared with the main thread

---
 unpythonic/dynassign.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/dynassign.py b/unpythonic/dynassign.py
index 8fce245..172e2ea 100644
--- a/unpythonic/dynassign.py
+++ b/unpythonic/dynassign.py
@@ -26,7 +26,9 @@ def _getstack():
         # TODO: preferable to use the parent thread's current stack, but difficult to get.
         # Could monkey-patch threading.Thread.__init__ to record this information in self...
         with _mainthread_lock:
-            _L._stack = _mainthread_stack.copy()
+            # Copy the scopes, too, so that assigning to an inherited dynamic variable
+            # affects only the thread that does the assigning.
+            _L._stack = [scope.copy() for scope in _mainthread_stack.copy()]
     return _L._stack
 
 def _getobservers():
-- 
2.43.0


From 75ff1e2f0abce9ebd56536a00128bf78ef1b6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:41 +0000
Subject: [PATCH 02/68] fix: conditions: a handler that uses `with handlers`
 can decline without crashing signal

---
 unpythonic/conditions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index a02e853..00f5ef2 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -505,7 +505,8 @@ class InvokeRestart(BaseException):
 
 def _find_handlers(cls):  # 0..n (though 0 is an error, handled at the calling end)
     _ensure_stacks()
-    for e in _stacks.handlers:
+    # Snapshot, because a handler may itself use `with handlers`.
+    for e in tuple(_stacks.handlers):
         for t, handler in e:  # t: tuple or type
             if isinstance(t, tuple):
                 if any(issubclass(cls, x) for x in t):
-- 
2.43.0


From 0d6c16c70ab8ff34148cbdd72a836fbe727e9196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 03/68] fix: conditions: warn(SomeWarning), given a class,
 emits a warning of that category

---
 unpythonic/conditions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index 00f5ef2..6997840 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -842,6 +842,8 @@ def warn(condition, *, cause=None):
     `contextlib.suppress`, except that execution continues normally
     in the caller of `warn` instead of unwinding to the handler.
     """
+    if safeissubclass(condition, BaseException):  # "warn(SomeWarning)"
+        condition = condition()  # instantiate with no args, like `raise` does
     with restarts(muffle=(lambda: None)):  # just for control, no return value
         with restarts(_proceed=(lambda: None)):  # for internal use by unpythonic.test.fixtures
             signal(condition, cause=cause, protocol=warn)
-- 
2.43.0


From cfe2e7a9a2cacc3a1957fcdfa2c37fa06ae0b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:52 +0000
Subject: [PATCH 04/68] fix: conditions: resignal of a cerror/warn honors
 proceed/muffle, and only the first matching conversion applies

---
 unpythonic/conditions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/unpythonic/conditions.py b/unpythonic/conditions.py
index 6997840..5cdc8a5 100644
--- a/unpythonic/conditions.py
+++ b/unpythonic/conditions.py
@@ -893,6 +893,13 @@ def _resignal_handler(mapping, condition):
                 error(f"Cannot resignal: protocol information missing in condition instance {condition}")
             resignaler = condition.__protocol__
             resignaler(ApplicationExc, cause=condition)
+            # If the converted signal was dealt with by returning normally from its protocol,
+            # then the original signal has been dealt with, too.
+            if resignaler is cerror:  # returns only if told to proceed
+                invoke("proceed")
+            elif resignaler is warn:  # muffled, or the warning has already been emitted
+                invoke("muffle")
+            return  # only the first matching conversion applies
     # cancel and delegate to the next outer handler
 
 def resignal_in(body, mapping):
-- 
2.43.0


From 80c64a42297f1247bc548ff0971f56c3be9b49ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:29 +0000
Subject: [PATCH 05/68] fix: tco: jump into a trampolined method keeps it bound
 to its instance

---
 unpythonic/tco.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/unpythonic/tco.py b/unpythonic/tco.py
index 16eb80d..c55d552 100644
--- a/unpythonic/tco.py
+++ b/unpythonic/tco.py
@@ -129,6 +129,7 @@ __all__ = ["jump", "trampolined"]
 
 from functools import wraps
 from sys import stderr
+from types import MethodType
 
 from .regutil import register_decorator
 from .lazyutil import islazy, passthrough_lazy_args, maybe_force_args
@@ -164,7 +165,12 @@ class _jump:
     """
     def __init__(self, target, args, kwargs):
         # IMPORTANT: don't let target bring along its trampoline if it has one
-        self.target = target._entrypoint if hasattr(target, "_entrypoint") else target
+        if hasattr(target, "_entrypoint"):
+            entrypoint = target._entrypoint
+            if isinstance(target, MethodType):  # the entrypoint is the raw function, so re-bind it
+                entrypoint = MethodType(entrypoint, target.__self__)
+            target = entrypoint
+        self.target = target
         self.args = args
         self.kwargs = kwargs
         self._claimed = False  # set when the instance is caught by a trampoline
-- 
2.43.0


From 10228bb5b6c978326476671afffa82e1ce59a62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:49 +0000
Subject: [PATCH 06/68] fix: gmemo: exhaustion of the source is not a memoized
 item

---
 unpythonic/gmemo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index ecd14e6..0e5cb20 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -124,7 +124,9 @@ class _MemoizedGenerator:
             else:
                 try:
                     result = (_success, next(self.g))
-                except BaseException as err:  # StopIteration propagates, not a BaseException
+                except StopIteration:  # exhausted; nothing was yielded, so there is nothing to memoize
+                    raise
+                except BaseException as err:
                     result = (_fail, err)
                 memo.append(result)
             kind, value = result
-- 
2.43.0


From 8a0743ee388ba228487d960ad122687cadd54eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:49 +0000
Subject: [PATCH 07/68] fix: gmemo: create one source per arguments also when
 called from several threads at once

---
 unpythonic/gmemo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/unpythonic/gmemo.py b/unpythonic/gmemo.py
index 0e5cb20..037a04a 100644
--- a/unpythonic/gmemo.py
+++ b/unpythonic/gmemo.py
@@ -92,12 +92,14 @@ def gmemoize(gfunc):
     See also ``imemoize``, ``fimemoize``.
     """
     memos = {}
+    memos_lock = RLock()
     @wraps(gfunc)
     def gmemoized(*args, **kwargs):
         k = tuplify_bindings(resolve_bindings(gfunc, *args, **kwargs))
-        if k not in memos:
-            # underlying generator instance, memo instance, lock instance
-            memos[k] = (gfunc(*args, **kwargs), [], RLock())
+        with memos_lock:  # one underlying generator instance per k, also when several threads ask at once
+            if k not in memos:
+                # underlying generator instance, memo instance, lock instance
+                memos[k] = (gfunc(*args, **kwargs), [], RLock())
         return _MemoizedGenerator(*memos[k])
     return gmemoized
 
-- 
2.43.0


From a566268fa9b3ce13d69d37a52e3fda5247f433ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:33 +0000
Subject: [PATCH 08/68] fix: curry: extra arguments left over after calling a
 returned function are an error at top level, as documented

---
 unpythonic/fun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index e3afecf..2d4ed81 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -412,7 +412,9 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 if callable(leftmost):
                     if not iscurried(leftmost):
                         leftmost = curry(leftmost)
-                    return maybe_force_args(leftmost, *later_args, **later_kwargs)
+                    # `f` is done, so this continues in the context that was waiting for `f`.
+                    with dyn.let(curry_context=outerctx):
+                        return maybe_force_args(leftmost, *later_args, **later_kwargs)
 
                 # The first positional return value is not a callable. Pass the return value(s) through
                 # to the curried procedure waiting in outerctx (e.g. in a curried compose chain).
-- 
2.43.0


From 56ff681881d6d2a039e99958827326f13cab038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:33 +0000
Subject: [PATCH 09/68] fix: curry: an extra positional argument does not bind
 a keyword-only parameter

---
 unpythonic/arity.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 1ffc460..2af8ce3 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -541,7 +541,13 @@ def _bind(thesignature, args, kwargs, *, partial):
                     # argument
                     # raise TypeError(
                     #     'too many positional arguments') from None
+                    #
+                    # This and all remaining positional arguments are extra;
+                    # the parameter is still to be bound by keyword (if at all).
                     extra_args.append(arg_val)
+                    extra_args.extend(arg_vals)
+                    parameters_ex = (param,)
+                    break
 
                 if param.kind == Parameter.VAR_POSITIONAL:
                     # We have an '*args'-like argument, let's fill it with
-- 
2.43.0


From 67d52ddaa06e2660f698f9db919e7311382157f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:43 +0000
Subject: [PATCH 10/68] fix: curry: pass through extra arguments collected at
 earlier steps, too

---
 unpythonic/fun.py | 50 ++++++++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 2d4ed81..b7eea47 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -326,7 +326,8 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
     # will perform the signature analysis.)
     if not (args or kwargs):
         try:
-            signature(f)
+            # The collected args/kwargs may include extra ones, for passthrough.
+            signature(f.func if isinstance(f, functools_partial) else f)
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
             if "no signature found" in msg:
@@ -358,20 +359,18 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 #   - Any arguments passed to us positionally must be passed through positionally,
                 #   - Any arguments passed to us by name must be passed through by name.
                 #
-                # Note the impedance mismatch with our use of `functools.partial`; the `args`/`kwargs`
-                # here are **NOT** the full `args`/`kwargs`, but only the new ones from this step.
+                # Some of the arguments may have been collected at earlier steps, into `f`;
+                # also those may be extra, so consider the full `args`/`kwargs`.
                 #
                 # We know these args/kwargs were extra when matched against the function's call signature:
+                function, all_args, all_kwargs = _collect_arguments(f, args, kwargs)
                 later_args = analysis.extra_args
                 later_kwargs = analysis.extra_kwargs
                 # Hence, we should avoid passing **now** any args/kwargs that should be passed later:
-                if later_args:
-                    now_args = args[:-len(later_args)]
-                else:
-                    now_args = args
-                now_kwargs = {k: v for k, v in kwargs.items() if k not in later_kwargs}
+                now_args = all_args[:len(all_args) - len(later_args)]
+                now_kwargs = {k: v for k, v in all_kwargs.items() if k not in later_kwargs}
 
-                now_result = maybe_force_args(f, *now_args, **now_kwargs)
+                now_result = maybe_force_args(function, *now_args, **now_kwargs)
 
                 # Inspect the return value(s).
                 #  - Inject the appropriate items to `later_args` and `later_kwargs`.
@@ -473,6 +472,23 @@ _keep_currying = sym("_keep_currying")
 
 _Analysis = namedtuple("_Analysis", ["bound_arguments", "unbound_parameters", "extra_args", "extra_kwargs"])
 
+def _collect_arguments(f, args, kwargs):
+    """Internal helper for `curry`.
+
+    If `f` is a `functools.partial` object, extract the original function, and the arguments
+    supplied so far. Return `(function, args, kwargs)`.
+    """
+    # `functools.partial()` doesn't remove an already-set kwarg from the signature (as seen by
+    # `inspect.signature`), but `functools.partial` objects have a `keywords` attribute, which
+    # contains what we want.
+    #
+    # To support kwargs properly, we must compute argument bindings anyway, so we also use the
+    # `func` and `args` attributes. This allows us to compute the bindings of all arguments
+    # against the original function.
+    if isinstance(f, functools_partial):
+        return f.func, f.args + args, {**f.keywords, **kwargs}
+    return f, args, kwargs
+
 # For performance, it is important to have this function defined once at the top level
 # of the module, instead of defining it as a closure each time `curry` is called.
 def _decide_curry_action(f, args, kwargs):
@@ -485,21 +501,7 @@ def _decide_curry_action(f, args, kwargs):
 
     Return value is `(action, analysis)`. See source code for details.
     """
-    # `functools.partial()` doesn't remove an already-set kwarg from the signature (as seen by
-    # `inspect.signature`), but `functools.partial` objects have a `keywords` attribute, which
-    # contains what we want.
-    #
-    # To support kwargs properly, we must compute argument bindings anyway, so we also use the
-    # `func` and `args` attributes. This allows us to compute the bindings of all arguments
-    # against the original function.
-    if isinstance(f, functools_partial):
-        function = f.func
-        collected_args = f.args + args
-        collected_kwargs = {**f.keywords, **kwargs}
-    else:
-        function = f
-        collected_args = args
-        collected_kwargs = kwargs
+    function, collected_args, collected_kwargs = _collect_arguments(f, args, kwargs)
 
     def _bind_arguments(thecallable):
         # For this check we look for a complete match, hence `_partial=False`.
-- 
2.43.0


From 760a827279c4fe94c3ee0035470651634204b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:45 +0000
Subject: [PATCH 11/68] fix: tokth: accept also the most negative valid index,
 so tolast works on a single argument

---
 unpythonic/fun.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index b7eea47..081c3f1 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -611,8 +611,8 @@ def rotate(k):
             n = len(args)
             if not n:
                 raise TypeError("Expected at least one argument")
-            if not -n < k < n:  # standard semantics for negative indices
-                raise IndexError(f"Should have -n < k < n, but n = len(args) = {n}, and k = {k}")
+            if not -n <= k < n:  # standard semantics for negative indices
+                raise IndexError(f"Should have -n <= k < n, but n = len(args) = {n}, and k = {k}")
             j = -k % n
             rargs = args[-j:] + args[:-j]
             return maybe_force_args(f, *rargs, **kwargs)
@@ -991,8 +991,8 @@ def tokth(k, f):
         n = len(args)
         if not n:
             raise TypeError("Expected at least one argument")
-        if not -n < k < n:  # standard semantics for negative indices
-            raise IndexError(f"Should have -n < k < n, but n = len(args) = {n}, and k = {k}")
+        if not -n <= k < n:  # standard semantics for negative indices
+            raise IndexError(f"Should have -n <= k < n, but n = len(args) = {n}, and k = {k}")
         j = k % n  # --> j ∈ {0, 1, ..., n - 1}, even if k < 0
         m = j + 1  # --> m ∈ {1, 2, ..., n}
         out = list(args[:j])
-- 
2.43.0


From e74b3cd10c79e65dffd5fbe9dfce9ae33b63c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:51 +0000
Subject: [PATCH 12/68] fix: composerc: provide the curry context to all
 functions but the one applied last, also when composing three or more

---
 unpythonic/fun.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 081c3f1..9caed3a 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -902,8 +902,6 @@ def _make_compose(direction):
                 return maybe_force_args(f, *a.rets, **a.kwrets)
             return maybe_force_args(f, a)
         return composed
-    if direction == "right":
-        compose_two = flip(compose_two)
     def compose(fs):
         """Compose functions from iterable `fs`.
 
@@ -912,6 +910,10 @@ def _make_compose(direction):
         public API functions whose names explicitly state the direction.
         """
         fs = force(fs)
+        if direction == "right":
+            # Always nest to the left, so that each `f` in `compose_two` is one of the `fs`
+            # (not itself a composition); this is needed for detecting curried functions.
+            fs = reversed(tuple(fs))
         composed = reducel(compose_two, fs)  # op(elt, acc)
         composed = passthrough_lazy_args(composed)
         return composed
-- 
2.43.0


From ed241fd3770a4e674b6a6cee09eadaf289dc6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:09 +0000
Subject: [PATCH 13/68] fix: partial, curry: handle partial applications
 chained over three or more steps

---
 unpythonic/fun.py | 53 +++++++++++++++++++++++------------------------
 1 file changed, 26 insertions(+), 27 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 9caed3a..7abdbfe 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -100,6 +100,28 @@ def memoize(f):
 
 # --------------------------------------------------------------------------------
 
+def _collect_arguments(f, args, kwargs):
+    """Internal helper for `partial` and `curry`.
+
+    If `f` is a `functools.partial` object, extract the original function, and the arguments
+    supplied so far. Return `(function, args, kwargs)`.
+    """
+    # `functools.partial()` doesn't remove an already-set kwarg from the signature (as seen by
+    # `inspect.signature`), but `functools.partial` objects have a `keywords` attribute, which
+    # contains what we want.
+    #
+    # To support kwargs properly, we must compute argument bindings anyway, so we also use the
+    # `func` and `args` attributes. This allows us to compute the bindings of all arguments
+    # against the original function.
+    #
+    # `functools.partial` does not always flatten chained partial applications (it doesn't, if the
+    # inner one has a `__dict__`, which may appear just by accessing it), so there may be several levels.
+    while isinstance(f, functools_partial):
+        args = f.args + args
+        kwargs = {**f.keywords, **kwargs}
+        f = f.func
+    return f, args, kwargs
+
 # Parameter naming is consistent with `functools.partial`.
 #
 # Note standard behavior of `functools.partial`: `kwargs` do not disappear from the call
@@ -134,14 +156,7 @@ def partial(func, *args, **kwargs):
     # HACK: As of Python 3.8, `typing.get_type_hints` does not know about `functools.partial` objects,
     # HACK: but those objects have `args` and `keywords` attributes, so we can extract what we need.
     # TODO: Maybe remove this hack if `typing.get_type_hints` gets support for `functools.partial` at some point.
-    if isinstance(func, functools_partial):
-        thecallable = func.func
-        collected_args = func.args + args
-        collected_kwargs = {**func.keywords, **kwargs}
-    else:
-        thecallable = func
-        collected_args = args
-        collected_kwargs = kwargs
+    thecallable, collected_args, collected_kwargs = _collect_arguments(func, args, kwargs)
 
     if isgeneric(thecallable):  # multiple dispatch
         # For generic functions, at least one multimethod must match the partial signature
@@ -160,7 +175,7 @@ def partial(func, *args, **kwargs):
         type_signature = get_type_hints(thecallable)
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
-            bound_arguments = _resolve_bindings(func, collected_args, collected_kwargs, _partial=True)
+            bound_arguments = _resolve_bindings(thecallable, collected_args, collected_kwargs, _partial=True)
             # Allow having some parameters without type annotations, in which case those parameters
             # will not be type-checked. `@generic` requires them for all parameters except
             # `self`/`cls`, but type annotations in general have no such requirement.
@@ -327,7 +342,8 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
     if not (args or kwargs):
         try:
             # The collected args/kwargs may include extra ones, for passthrough.
-            signature(f.func if isinstance(f, functools_partial) else f)
+            function, _, _ = _collect_arguments(f, args, kwargs)
+            signature(function)
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
             if "no signature found" in msg:
@@ -472,23 +488,6 @@ _keep_currying = sym("_keep_currying")
 
 _Analysis = namedtuple("_Analysis", ["bound_arguments", "unbound_parameters", "extra_args", "extra_kwargs"])
 
-def _collect_arguments(f, args, kwargs):
-    """Internal helper for `curry`.
-
-    If `f` is a `functools.partial` object, extract the original function, and the arguments
-    supplied so far. Return `(function, args, kwargs)`.
-    """
-    # `functools.partial()` doesn't remove an already-set kwarg from the signature (as seen by
-    # `inspect.signature`), but `functools.partial` objects have a `keywords` attribute, which
-    # contains what we want.
-    #
-    # To support kwargs properly, we must compute argument bindings anyway, so we also use the
-    # `func` and `args` attributes. This allows us to compute the bindings of all arguments
-    # against the original function.
-    if isinstance(f, functools_partial):
-        return f.func, f.args + args, {**f.keywords, **kwargs}
-    return f, args, kwargs
-
 # For performance, it is important to have this function defined once at the top level
 # of the module, instead of defining it as a closure each time `curry` is called.
 def _decide_curry_action(f, args, kwargs):
-- 
2.43.0


From 8d57719552e2f373845a61b4d1ac468a4ef3ed4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:46 +0000
Subject: [PATCH 14/68] fix: generic: look up multimethods in the MRO also when
 self is falsy

---
 unpythonic/dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 5f06e41..a6e8651 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -463,7 +463,7 @@ def _list_multimethods(dispatcher, self_or_cls=None):
     # See discussions on interaction between `@staticmethod` and `super` in Python:
     #   https://bugs.python.org/issue31118
     #   https://stackoverflow.com/questions/26788214/super-and-staticmethod-interaction/26807879
-    if self_or_cls:
+    if self_or_cls is not None:
         if isinstance(self_or_cls, type):
             cls = self_or_cls
         elif hasattr(self_or_cls, "__class__"):
-- 
2.43.0


From 7b91e877fe36f260f01685a9e8874f91e867fe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:46 +0000
Subject: [PATCH 15/68] fix: isoftype: delegate concrete classes to isinstance,
 as documented

---
 unpythonic/typecheck.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/unpythonic/typecheck.py b/unpythonic/typecheck.py
index 228c9dd..f6cfec6 100644
--- a/unpythonic/typecheck.py
+++ b/unpythonic/typecheck.py
@@ -197,6 +197,14 @@ def isoftype(value, T):
         #   print(type(i))  # int
         return isinstance(value, T.__supertype__)
 
+    # A concrete class is not a type specification, even if it happens to be a subclass of
+    # one of the builtin collections, `str`, or similar. So don't match it structurally, below.
+    if isinstance(T, type) and T.__module__ != "typing" and not hasattr(T, "__origin__"):
+        try:
+            return isinstance(value, T)
+        except TypeError:  # e.g. a protocol that is not a runtime protocol
+            pass
+
     # Some one-trick ponies.
     for U in (typing.Iterator,    # can't non-destructively check element type
               typing.Iterable,    # can't non-destructively check element type
-- 
2.43.0


From df93880fb0c2491d328fca86cd713476a6f4a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:01 +0000
Subject: [PATCH 16/68] fix: env: update, setdefault: validate names, and
 respect assignonce, like other ways of binding do

---
 unpythonic/env.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index d5538e4..ae2953b 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -147,16 +147,15 @@ class env:
         if mapping:
             if len(mapping) > 1:
                 raise ValueError(f"Expected at most one `mapping`, got {len(mapping)}.")
-            m = mapping[0]
-            if self._finalized and any(k not in self for k in m):
-                raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        if self._finalized and any(k not in self for k in bindings):
+        new = dict(*mapping, **bindings)
+        if self._finalized and any(k not in self for k in new):
             raise AttributeError("adding new bindings to a finalized environment is not allowed")
-        return self._env.update(*mapping, **bindings)
-    def setdefault(self, k, *default):
-        if self._finalized and k not in self:
-            raise AttributeError(f"name {repr(k)} is not defined; adding new bindings to a finalized environment is not allowed")
-        return self._env.setdefault(k, *default)
+        for k, v in new.items():
+            setattr(self, k, v)
+    def setdefault(self, k, default=None):
+        if k not in self:
+            setattr(self, k, default)
+        return self._env[k]
 
     # subscripting
     def __getitem__(self, k):
-- 
2.43.0


From 27dc66376e2d6e8b588becdf029b80c5b1e9518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:01 +0000
Subject: [PATCH 17/68] fix: assignonce: allow giving initial bindings
 (env.__new__ ran __init__ twice)

---
 unpythonic/env.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index ae2953b..c9abdae 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -61,7 +61,6 @@ class env:
         instance = super().__new__(cls)
         instance._env = {}
         instance._finalized = False  # "let" sets this once env setup done
-        instance.__init__(**kwargs)
         return instance
 
     def __init__(self, **bindings):
-- 
2.43.0


From e621e0fb8a37dda0028e936963c26ceb2952a162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:02 +0000
Subject: [PATCH 18/68] fix: env: reserve also the names of the mapping
 methods, which could be bound but not read back

---
 unpythonic/env.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index c9abdae..422eaa8 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -52,7 +52,9 @@ class env:
     """
     # do not allow bindings that would break functionality.
     _reserved_names = ("set", "clear", "finalize", "_env", "_finalized",
-                       "_direct_write", "_reserved_names")
+                       "_direct_write", "_reserved_names", "_set",
+                       "items", "keys", "values", "get",
+                       "pop", "popitem", "update", "setdefault")
     _direct_write = ("_env", "_finalized")
 
     # For pickle support, since unpickling calls `__new__` but not `__init__`.
-- 
2.43.0


From 1e42ab31e2cef84e1fa306e9309d82885ff70cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:39 +0000
Subject: [PATCH 19/68] fix: roview, view: nested views follow the underlying
 sequence when its length changes

---
 unpythonic/collections.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 280f870..97276b0 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -638,7 +638,12 @@ class roview(SequenceView, _StrReprEqMixin):
         return len(r)
 
     def _update_cache(self):
-        seql = len(self.seq)
+        # Nested view: the length of the parent view may stay the same although
+        # the length of the underlying sequence changes.
+        data = self.seq
+        while isinstance(data, roview):
+            data = data.seq
+        seql = len(data)
         if seql != self._seql:
             self._seql = seql
             self._cache = self._range()
-- 
2.43.0


From 00889ae679c3ce04f82b818e48cd60a90d7929ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:25 +0000
Subject: [PATCH 20/68] fix: in_slice, index_in_slice, fup: a slice with a
 negative step that starts at the length starts from the last item

---
 unpythonic/collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 97276b0..b12c997 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -946,6 +946,8 @@ def _canonize_slice(s, length=None, wrap=None):  # convert negatives, inject def
             if length is None:
                 raise ValueError("Need length to determine default start for step < 0")
             start = wrap(-1)
+    elif step < 0 and start == length:  # like in Python, the last item is the first one that can be selected
+        start = length - 1
 
     stop = wrap(s.stop)
     if stop is None:
-- 
2.43.0


From c57f34441109f564db2257504e9edb8435735191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:25 +0000
Subject: [PATCH 21/68] fix: in_slice, fup: a single index equal to the length
 is out of range, not a silent no-op

---
 unpythonic/collections.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index b12c997..95e9da1 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -870,6 +870,8 @@ def in_slice(i, s, length=None):
     wrap = _make_negidx_converter(length)
     i = wrap(i)
     if isinstance(s, int):
+        if s == length:
+            raise IndexError(f"Should have -length <= s < length for a single index, but length = {length}, and s = {s}")
         s = wrap(s)
         return i == s
     start, stop, step = _canonize_slice(s, length, wrap)
-- 
2.43.0


From 45c38d6f247e00b1cfe5035f017f3b788dd45404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:56 +0000
Subject: [PATCH 22/68] fix: BinaryTreeIterator, JackOfAllTradesIterator: visit
 the car half before the cdr half also when only the car is a cons

---
 unpythonic/llist.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index a8a56d9..76051ce 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -150,17 +150,12 @@ class BinaryTreeIterator(ConsIterator):
         def walker(cell):  # imperative, no call stack overflow (we keep our own data stack instead)
             stack = [cell]
             while stack:
-                cell = stack.pop()
-                a, d = cell.car, cell.cdr
-                ac, dc = isinstance(a, cons), isinstance(d, cons)
-                if not ac:
-                    yield a
-                if not dc:
-                    yield d
-                if dc:
-                    stack.append(d)
-                if ac:
-                    stack.append(a)  # LIFO
+                x = stack.pop()
+                if isinstance(x, cons):
+                    stack.append(x.cdr)
+                    stack.append(x.car)  # LIFO
+                else:
+                    yield x
         super().__init__(root, walker)
 
 class JackOfAllTradesIterator(ConsIterator):
@@ -194,17 +189,13 @@ class JackOfAllTradesIterator(ConsIterator):
         def walker(cell):
             stack = [cell]
             while stack:
-                cell = stack.pop()
-                a, d = cell.car, cell.cdr
-                ac, dc = isinstance(a, cons), isinstance(d, cons)
-                if not ac:
-                    yield a
-                if not dc and d is not nil:
-                    yield d
-                if dc:
-                    stack.append(d)
-                if ac:
-                    stack.append(a)  # LIFO
+                x = stack.pop()
+                if isinstance(x, cons):
+                    if x.cdr is not nil:
+                        stack.append(x.cdr)
+                    stack.append(x.car)  # LIFO
+                else:
+                    yield x
         super().__init__(root, walker)
 
 class cons:
-- 
2.43.0


From b9e281ff2e5f61c706227756a4c3c85234a30ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:56 +0000
Subject: [PATCH 23/68] fix: llist: take only the remaining items of a
 partially consumed reverse iterator

---
 unpythonic/llist.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/unpythonic/llist.py b/unpythonic/llist.py
index 76051ce..a0fbf41 100644
--- a/unpythonic/llist.py
+++ b/unpythonic/llist.py
@@ -97,6 +97,10 @@ class LinkedListReverseIterator(LinkedListIterator):
     def __init__(self, head, _fullerror=True):
         self._data = lreverse(head)
         super().__init__(self._data, _fullerror)
+    def __next__(self):
+        x = super().__next__()
+        self._data = self._data.cdr  # what remains; see `llist`
+        return x
 
 class LinkedListOrCellIterator(ConsIterator):
     """Like LinkedListIterator, but allow also a single cons cell.
-- 
2.43.0


From 5a09e5f49e2261206ee6116b16d586ad24d780de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:13 +0000
Subject: [PATCH 24/68] fix: islice: a negative start with a nonnegative stop
 at or before it gives no items

---
 unpythonic/slicing.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index 1188407..6a0e417 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -74,15 +74,14 @@ def islice(iterable):
                     start = stop = None
                 elif start and start < 0:
                     n, start = -start, None
-                    if not stop:
+                    if stop is None:
                         it = lastn(n, iterable)
-                    else:  # stop and stop > 0:
+                    else:  # stop >= 0:
                         # to adjust stop, we must know how many items are dropped
                         cit = CountingIterator(iterable)
                         it = tuple(lastn(n, cit))  # force to actually count (note lastn stores only <= n items)
                         n_dropped = max(0, cit.count - n)  # max needed if start is past the start of iterable
-                        stop -= n_dropped
-                        assert stop >= 0
+                        stop = max(0, stop - n_dropped)  # max needed if stop is before start
                 elif stop and stop < 0:
                     it = butlastn(-stop, iterable)
                     stop = None
-- 
2.43.0


From 45cea2ef73a98403d9c0692f450b0c7952b24a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:26 +0000
Subject: [PATCH 25/68] fix: islice: a negative single index past the start is
 out of range, like a nonnegative one past the end

---
 unpythonic/slicing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/slicing.py b/unpythonic/slicing.py
index 6a0e417..4b3d229 100644
--- a/unpythonic/slicing.py
+++ b/unpythonic/slicing.py
@@ -87,7 +87,8 @@ def islice(iterable):
                     stop = None
                 return islicef(it, start, stop, step)
             if k < 0:
-                return first(lastn(-k, iterable))
+                items = tuple(lastn(-k, iterable))
+                return items[0] if len(items) == -k else None  # out of range, like for nonnegative k
             return first(islicef(iterable, k, k + 1))
     return islice1()
 
-- 
2.43.0


From 50741711cf0470e6daa01edf4fff8d44efd671f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:26 +0000
Subject: [PATCH 26/68] fix: interleave: with no inputs, terminate instead of
 looping forever

---
 unpythonic/it.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/it.py b/unpythonic/it.py
index b53caf4..8534a38 100644
--- a/unpythonic/it.py
+++ b/unpythonic/it.py
@@ -803,6 +803,8 @@ def interleave(*iterables):
     class ShortestInputEnded(Exception):
         pass
     iters = [iter(it) for it in iterables]
+    if not iters:
+        return
     def roundrobin():
         for it in iters:
             try:
-- 
2.43.0


From 509bae26e36ab050cef96d69ef725a76787c1995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:21 +0000
Subject: [PATCH 27/68] fix: s: accept the final element of an alternating
 geometric sequence also when the logarithm is not exact

---
 unpythonic/mathseq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index dc35342..0e3ea7c 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -346,9 +346,10 @@ def s(*spec):
             # elt = x0*(k**a) --> k**a = (elt/x0) --> a = logk(elt/x0)
             a = log(abs(elt / x0), abs(k))
             if is_almost_int(a) and a > 0:
+                a = int(round(a))  # roundoff; also, a negative k needs an integer exponent
                 if not almosteq(x0 * (k**a), elt):  # check parity of final term, could be an alternating sequence
                     return False
-                return int(1 + round(a))
+                return 1 + a
         else:  # seqtype == "power":
             # elt = x0**(k**a) --> k**a = logx0 elt --> a = logk (logx0 elt)
             a = log(log(abs(elt), abs(x0)), abs(k))
-- 
2.43.0


From 76b8bcd8db8007c409a367465049adaedb516016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:21 +0000
Subject: [PATCH 28/68] fix: s: raise SyntaxError for a specification that
 matches no formula, instead of ValueError, ZeroDivisionError or a sequence
 with other terms

---
 unpythonic/mathseq.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index 0e3ea7c..499f874 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -310,12 +310,13 @@ def s(*spec):
                         # becomes float
                         r = (r1 + r2) / 2
                     return ("geom", a0, r)
-            if abs(a0) != 1 and a1 != 0 and a2 != 0:
+            if abs(a0) not in (0, 1) and abs(a1) not in (0, 1) and a2 != 0:
                 p1 = log(abs(a1), abs(a0))
                 p2 = log(abs(a2), abs(a1))
                 if almosteq(p1, p2):  # a0, a0**p, (a0**p)**p, ...  [a0, **p]
                     p = (p1 + p2) / 2
-                    return ("power", a0, p)
+                    if almosteq(a0**p, a1) and almosteq(a1**p, a2):  # check signs; the logarithms ignore them
+                        return ("power", a0, p)
             # Most unrecognized sequences trigger this case.
             raise SyntaxError(f"Specification did not match any supported formula: '{origspec}'")
         else:  # more elements are optional but must be consistent
-- 
2.43.0


From c686bb206106f685d41361fe1c5a874e69bc2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:41 +0000
Subject: [PATCH 29/68] fix: s: raise SyntaxError for a final element that is
 not in the sequence, instead of ValueError or ZeroDivisionError

---
 unpythonic/mathseq.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/unpythonic/mathseq.py b/unpythonic/mathseq.py
index 499f874..8d50f6a 100644
--- a/unpythonic/mathseq.py
+++ b/unpythonic/mathseq.py
@@ -344,6 +344,10 @@ def s(*spec):
             if is_almost_int(a) and a > 0:
                 return int(1 + round(a))  # fencepost
         elif seqtype == "geom":
+            if abs(k) == 1:  # x0, -x0, x0, ...
+                return infty if elt == x0 or elt == -x0 else False
+            if elt == 0:
+                return False
             # elt = x0*(k**a) --> k**a = (elt/x0) --> a = logk(elt/x0)
             a = log(abs(elt / x0), abs(k))
             if is_almost_int(a) and a > 0:
@@ -352,8 +356,13 @@ def s(*spec):
                     return False
                 return 1 + a
         else:  # seqtype == "power":
+            if abs(elt) in (0, 1):
+                return False
             # elt = x0**(k**a) --> k**a = logx0 elt --> a = logk (logx0 elt)
-            a = log(log(abs(elt), abs(x0)), abs(k))
+            b = log(abs(elt), abs(x0))
+            if abs(k) == 1:  # x0, 1 / x0, x0, ...
+                return infty if almosteq(abs(b), 1.0) else False
+            a = log(abs(b), abs(k))  # a negative k alternates the sign of b, checked below
             if is_almost_int(a) and a > 0:
                 if not almosteq(x0**(k**a), elt):  # parity
                     return False
-- 
2.43.0


From 7b031c63266af533b669d9cc34f139b863856688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:35 +0000
Subject: [PATCH 30/68] fix: streamsource: respect chunksize

---
 unpythonic/net/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/net/util.py b/unpythonic/net/util.py
index 541a6c0..874aece 100644
--- a/unpythonic/net/util.py
+++ b/unpythonic/net/util.py
@@ -128,7 +128,7 @@ def streamsource(stream, chunksize=4096):
         raise TypeError(f"Expected a derivative of `IOBase`, got {type(stream)}")
     def stream_chunk_iterator():
         while True:
-            data = stream.read(4096)
+            data = stream.read(chunksize)
             if len(data) == 0:
                 return
             yield data
-- 
2.43.0


From d9e7ce8732154c9dbede70e1c065235ff33ea6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:35 +0000
Subject: [PATCH 31/68] fix: decodemsg: parse the header also when the buffer
 already holds 4096 bytes or more

---
 unpythonic/net/msg.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/unpythonic/net/msg.py b/unpythonic/net/msg.py
index cc5d621..2ccf889 100644
--- a/unpythonic/net/msg.py
+++ b/unpythonic/net/msg.py
@@ -220,14 +220,12 @@ def decodemsg(buf, source):
         # The len(val) check prevents a junk flood attack.
         # The maximum value of the length has 4090 base-10 digits, all nines.
         # The 4096 is arbitrarily chosen, but matches the typical socket read size.
-        while len(val) < 4096:
-            j = val.find(b";")  # end of length-of-body field
-            if j != -1:  # found
-                break
+        j = val.find(b";")  # end of length-of-body field
+        while j == -1 and len(val) < 4096:
             val = read_more_input()
+            j = val.find(b";")
         if j == -1:  # maximum length of length-of-body field exceeded, terminator not found.
             raise MessageHeaderParseError
-        j = val.find(b";")
         body_len = int(val[5:j].decode("utf-8"))
         buf.set(val[(j + 1):])
         return body_len
-- 
2.43.0


From fc2a875e42d8426f5975cde70961c1796e844512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:35 +0000
Subject: [PATCH 32/68] fix: decodemsg: re-synchronize when the length field is
 not a number, instead of crashing or losing the message

---
 unpythonic/net/msg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/net/msg.py b/unpythonic/net/msg.py
index 2ccf889..f5088db 100644
--- a/unpythonic/net/msg.py
+++ b/unpythonic/net/msg.py
@@ -226,6 +226,8 @@ def decodemsg(buf, source):
             j = val.find(b";")
         if j == -1:  # maximum length of length-of-body field exceeded, terminator not found.
             raise MessageHeaderParseError
+        if not val[5:j].isdigit():
+            raise MessageHeaderParseError
         body_len = int(val[5:j].decode("utf-8"))
         buf.set(val[(j + 1):])
         return body_len
-- 
2.43.0


From 19939a62a44df718891616f0bb276ef760ed0133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:36 +0000
Subject: [PATCH 33/68] fix: tco, continuations: a tail call as the last item
 of an or-expression no longer shadows a user variable named it

---
 unpythonic/syntax/tailtools.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index cb5f5e4..f9c9145 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -27,7 +27,7 @@ from mcpyrate.quotes import capture_as_macro, is_captured_value
 from mcpyrate.utils import NestingLevelTracker
 from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
-from .ifexprs import aif, it
+from .letdo import let
 from .letdoutil import isdo, islet, ExpandedLetView, ExpandedDoView
 from .util import (isx, isec,
                    detect_callec, detect_lambda,
@@ -41,15 +41,8 @@ from ..funutil import Values
 from ..it import uniqify
 from ..tco import trampolined, jump
 
-# In `continuations`, we use `aif` and `it` as hygienically captured macros.
-# Note the difference between `aif[..., it, ...]` and `q[a[_our_aif][..., a[_our_it], ...]]`.
-#
-# If `it` is bound in the current expander, even *mentioning* it outside an `aif` is a syntax error, by design.
-#
-# When constructing a quasiquoted tree that invokes `aif[]`, we can splice in a hygienic reference to `it`
-# as `a[_our_it]` without even having the macro bound in the expander that expands *this* module.
-_our_aif = capture_as_macro(aif)
-_our_it = capture_as_macro(it)
+# In the tail-position analysis of `or`, we use `let` as a hygienically captured macro.
+_our_let = capture_as_macro(let)
 
 # --------------------------------------------------------------------------------
 # Macro interface
@@ -1625,10 +1618,10 @@ def _transform_retexpr(tree, known_ecs, call_cb=None, data_cb=None):
                 else:
                     op_of_others = tree.values[0]
                 if type(tree.op) is Or:
-                    # or(data1, ..., datan, tail) --> aif[any(others), it, tail]
-                    tree = q[a[_our_aif][a[op_of_others],
-                                         a[transform_data(_our_it)],
-                                         a[transform(tree.values[-1])]]]  # tail-call item
+                    # or(data1, ..., datan, tail) --> let[tmp := or(others)][tmp if tmp else tail]
+                    tmp = gensym("or_result")  # must not shadow any name the user might use in `tail`
+                    body = q[a[transform_data(q[n[tmp]])] if n[tmp] else a[transform(tree.values[-1])]]  # tail-call item
+                    tree = q[a[_our_let][(n[tmp], a[op_of_others])][a[body]]]
                 elif type(tree.op) is And:
                     # and(data1, ..., datan, tail) --> tail if all(others) else False
                     tree = q[a[transform(tree.values[-1])]
-- 
2.43.0


From bd5d6a54d5ad42ae6fc4fb6d1309f34f37df1261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:36 +0000
Subject: [PATCH 34/68] fix: do: names bound by a nested let or do shadow those
 of the outer do, instead of raising SyntaxError

---
 unpythonic/syntax/letdo.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index 5bda9cf..a94b94e 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -40,7 +40,7 @@ from ..lispylet import _let as letf, _dlet as dletf, _blet as bletf
 from ..misc import namelambda
 from ..seq import do as dof
 
-from .letdoutil import (isdo, isenvassign, UnexpandedEnvAssignView,
+from .letdoutil import (isdo, isenvassign, islet, UnexpandedEnvAssignView,
                         UnexpandedLetView, canonize_bindings)
 from .nameutil import getname, is_unexpanded_expr_macro
 from .scopeanalyzer import scoped_transform
@@ -885,6 +885,16 @@ def _do(tree):
     check_stray_localdefs = partial(check_strays, islocaldef)
     check_stray_deletes = partial(check_strays, isdelete)
 
+    def expand_nested_scopes(tree):
+        class NestedScopeExpander(ASTTransformer):
+            def transform(self, tree):
+                if is_captured_value(tree):
+                    return tree  # don't recurse!
+                if islet(tree, expanded=False) or isdo(tree, expanded=False):
+                    return dyn._macro_expander.visit_recursively(tree)
+                return self.generic_visit(tree)
+        return NestedScopeExpander().visit(tree)
+
     names = []
     lines = []
     for j, expr in enumerate(tree.elts, start=1):
@@ -904,6 +914,10 @@ def _do(tree):
         check_stray_localdefs(expr)
         check_stray_deletes(expr)
 
+        # Names bound by a nested `let` or `do` shadow ours; so expand those first,
+        # before our name transforms can mangle their bindings.
+        expr = expand_nested_scopes(expr)
+
         # The envassignment transform (LHS) needs the updated bindings, whereas
         # the name transform (RHS) should use the previous bindings, so that any
         # changes to bindings take effect starting from the **next** do-item.
-- 
2.43.0


From 5233f97051cfb9c95f19ba3a09470a25c8e39ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:38 +0000
Subject: [PATCH 35/68] fix: continuations: a chained continuation accepts cc
 and can be called normally, so that call_cc works in a function tail-called
 from a continuation

---
 unpythonic/syntax/tailtools.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index f9c9145..02b929c 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -755,8 +755,16 @@ def chain_conts(cc1, cc2, with_star=False):  # cc1=_pcc, cc2=cc
     """Internal function, used in code generated by the continuations macro."""
     if with_star:  # to be chainable from a tail call, accept a multiple-values arglist
         if cc1 is not None:
-            def cc(*rets, **kwrets):
-                return jump(cc1, cc=cc2, *rets, **kwrets)
+            # A continuation, too, may get a `cc`: when this chain becomes the `_pcc` of another
+            # continuation, that is where to proceed after `cc2`. It may also be called normally.
+            @trampolined
+            def chained(*rets, cc=identity, **kwrets):
+                if cc is identity:
+                    cc = cc2
+                elif cc2 is not identity:
+                    cc = chain_conts(cc2, cc, with_star=True)
+                return jump(cc1, cc=cc, *rets, **kwrets)
+            cc = chained
         else:
             # Beside a small optimization, it is important to preserve
             # "identity" as "identity", so that the call_cc logic that
-- 
2.43.0


From 5fc6c4f9f85cb6571909b4605e317361bc15bc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:38 +0000
Subject: [PATCH 36/68] fix: continuations: the second and further call_cc[] in
 a function no longer forget where the function should return to

---
 unpythonic/syntax/tailtools.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 02b929c..991824c 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -787,6 +787,16 @@ def chain_conts(cc1, cc2, with_star=False):  # cc1=_pcc, cc2=cc
     return cc
 
 
+def parent_cont(pcc, cc):
+    """Internal function, used in code generated by the continuations macro.
+
+    Return the value for the `_pcc` of a continuation created by `call_cc[]` in a function
+    that has the given `_pcc` and `cc`: where to proceed when the continuation finishes.
+    """
+    cc = chain_conts(pcc, cc, with_star=True)
+    return cc if cc is not identity else None
+
+
 _continuations_level = NestingLevelTracker()  # for checking validity of call_cc[]
 
 class ContinuationsMarker(UnpythonicASTMarker):
@@ -1088,6 +1098,7 @@ def _continuations(block_body):  # here be dragons.
             if tree:
                 tree.keywords = [keyword(arg="cc", value=q[n[contname]])] + tree.keywords
             else:  # no call means proceed to cont directly, with args set to None
+                # (where to go after that, the cont already knows; see `maybe_capture` below)
                 tree = q[n[contname](*([None] * u[len(targets)]), cc=n["cc"])]
             return tree
         thecall = prepare_call(thecall)
@@ -1106,10 +1117,8 @@ def _continuations(block_body):  # here be dragons.
         # TODO: needs to be modified, too.
         #
         FDef = type(owner) if owner else FunctionDef  # use same type (regular/async) as parent function
-        non = q[None]
-        maybe_capture = IfExp(test=q[n["cc"] is not h[identity]],
-                              body=q[n["cc"]],
-                              orelse=non)
+        # A continuation created inside another continuation has also a parent cc (`_pcc`) to return to.
+        maybe_capture = q[h[parent_cont](n["_pcc"], n["cc"])] if owner else q[h[parent_cont](None, n["cc"])]
         contarguments = arguments(args=[arg(arg=x) for x in targets],
                                   kwonlyargs=[arg(arg="cc"), arg(arg="_pcc")],
                                   vararg=(arg(arg=starget) if starget else None),
-- 
2.43.0


From 27277ed26bcdd37a72adde35307531397c91aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:38 +0000
Subject: [PATCH 37/68] fix: continuations: call_cc[... if p else None] no
 longer runs the parent continuation twice when skipping the call

---
 unpythonic/syntax/tailtools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index 991824c..e21c1c4 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -1099,7 +1099,7 @@ def _continuations(block_body):  # here be dragons.
                 tree.keywords = [keyword(arg="cc", value=q[n[contname]])] + tree.keywords
             else:  # no call means proceed to cont directly, with args set to None
                 # (where to go after that, the cont already knows; see `maybe_capture` below)
-                tree = q[n[contname](*([None] * u[len(targets)]), cc=n["cc"])]
+                tree = q[n[contname](*([None] * u[len(targets)]))]
             return tree
         thecall = prepare_call(thecall)
         if condition:
-- 
2.43.0


From 5f7e5050b779e4a89e227e44c33e4ad5913bf6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:23 +0000
Subject: [PATCH 38/68] fix: let, do: evaluate parameter defaults and a
 comprehension's outermost iterable in the surrounding scope

---
 unpythonic/syntax/scopeanalyzer.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/scopeanalyzer.py b/unpythonic/syntax/scopeanalyzer.py
index 27d7a8c..b878fe7 100644
--- a/unpythonic/syntax/scopeanalyzer.py
+++ b/unpythonic/syntax/scopeanalyzer.py
@@ -93,6 +93,17 @@ def isnewscope(tree):
     """
     return type(tree) in (Lambda, FunctionDef, AsyncFunctionDef, ClassDef, ListComp, SetComp, GeneratorExp, DictComp)
 
+def evaluated_in_surrounding_scope(tree):
+    """Return those subtrees of a `tree` introducing a new scope that Python evaluates in the surrounding scope.
+
+    These are the default values of parameters, and the outermost iterable of a comprehension.
+    """
+    if type(tree) in (Lambda, FunctionDef, AsyncFunctionDef):
+        return tree.args.defaults + [x for x in tree.args.kw_defaults if x is not None]
+    if type(tree) in (ListComp, SetComp, GeneratorExp, DictComp):
+        return [tree.generators[0].iter]
+    return []
+
 # TODO: make this fit `mcpyrate`'s `ASTTransformer` paradigm better.
 # TODO: maybe allow passing initial args, localvars, nonlocals?
 def scoped_transform(tree, *, callback):
@@ -121,6 +132,8 @@ def scoped_transform(tree, *, callback):
                 tree = callback(tree, names_in_scope)
                 if tree:  # allow deletions by the custom transformer
                     self.generic_withstate(tree, args=(args + moreargs))
+                    for subtree in evaluated_in_surrounding_scope(tree):
+                        self.withstate(subtree, args=args)
                     return self.generic_visit(tree)
             elif type(tree) in (FunctionDef, AsyncFunctionDef):
                 # Decorator list is processed in the surrounding scope
@@ -128,8 +141,9 @@ def scoped_transform(tree, *, callback):
 
                 moreargs, newnonlocals = get_lexical_variables(tree, collect_locals=False)
 
-                # The function parameters see each other (TODO: check if this is right)
                 self.withstate(tree.args, args=(args + moreargs))
+                for subtree in evaluated_in_surrounding_scope(tree):
+                    self.withstate(subtree, args=args)
                 tree.args = self.visit(tree.args)
 
                 # The body sees the parameters and any new nonlocals
-- 
2.43.0


From 8f1a948d7f7c6d4d2d6d4fea4529c062829d178d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:16 +0000
Subject: [PATCH 39/68] fix: continuations: work under lazify, where the
 continuation of a tail call is a promise

---
 unpythonic/syntax/tailtools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/unpythonic/syntax/tailtools.py b/unpythonic/syntax/tailtools.py
index e21c1c4..ceb27cf 100644
--- a/unpythonic/syntax/tailtools.py
+++ b/unpythonic/syntax/tailtools.py
@@ -39,6 +39,7 @@ from ..dynassign import dyn
 from ..fun import identity
 from ..funutil import Values
 from ..it import uniqify
+from ..lazyutil import force1
 from ..tco import trampolined, jump
 
 # In the tail-position analysis of `or`, we use `let` as a hygienically captured macro.
@@ -753,12 +754,14 @@ def _tco(block_body):
 #
 def chain_conts(cc1, cc2, with_star=False):  # cc1=_pcc, cc2=cc
     """Internal function, used in code generated by the continuations macro."""
+    cc1, cc2 = force1(cc1), force1(cc2)  # support `with lazify`
     if with_star:  # to be chainable from a tail call, accept a multiple-values arglist
         if cc1 is not None:
             # A continuation, too, may get a `cc`: when this chain becomes the `_pcc` of another
             # continuation, that is where to proceed after `cc2`. It may also be called normally.
             @trampolined
             def chained(*rets, cc=identity, **kwrets):
+                cc = force1(cc)
                 if cc is identity:
                     cc = cc2
                 elif cc2 is not identity:
-- 
2.43.0


From ea1c0f79d49d88797d0f56e9cd9d820fd0fa9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:32 +0000
Subject: [PATCH 40/68] fix: let: macros that edit an unexpanded let (e.g.
 namedlambda) no longer create a cyclic AST from a body that is a constant,
 attribute or subscript

---
 unpythonic/syntax/letdoutil.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/letdoutil.py b/unpythonic/syntax/letdoutil.py
index d286d0e..5b26920 100644
--- a/unpythonic/syntax/letdoutil.py
+++ b/unpythonic/syntax/letdoutil.py
@@ -29,7 +29,8 @@ def _set_subscript_slice(tree, newslice):  # newslice: AST
     assert type(tree) is Subscript
     if sys.version_info >= (3, 9, 0):  # Python 3.9+: the Index wrapper is gone.
         tree.slice = newslice
-    tree.slice.value = newslice
+    else:
+        tree.slice.value = newslice
 def _canonize_macroargs_node(macroargs):
     # We do this like `mcpyrate.expander.destructure_candidate` does,
     # except that we also destructure a list.
-- 
2.43.0


From 335e2eb064e0efd901426e5024625c9f045d2145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:06 +0000
Subject: [PATCH 41/68] fix: symbol: str() of a symbol whose name is not a
 string no longer raises TypeError

---
 unpythonic/symbol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/symbol.py b/unpythonic/symbol.py
index a9dccaa..d95e2eb 100644
--- a/unpythonic/symbol.py
+++ b/unpythonic/symbol.py
@@ -93,7 +93,7 @@ class sym(Symbol):
         return (self.name,)
 
     def __str__(self):
-        return self.name
+        return str(self.name)
     def __repr__(self):
         return f'sym("{self.name}")'
 
-- 
2.43.0


From 9a5633a556ec6dbe1b4c88ebfeb240060aa5e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:09 +0000
Subject: [PATCH 42/68] fix: symbol, singleton: no KeyError when another thread
 drops the last reference while the existing instance is being looked up

---
 unpythonic/singleton.py |  8 +++-----
 unpythonic/symbol.py    | 18 +++++++-----------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/unpythonic/singleton.py b/unpythonic/singleton.py
index 8cf7426..7028902 100644
--- a/unpythonic/singleton.py
+++ b/unpythonic/singleton.py
@@ -178,13 +178,11 @@ class Singleton(metaclass=ThereCanBeOnlyOne):
         except KeyError:
             # Then be careful to avoid race conditions.
             with _instances_update_lock:
-                if cls not in _instances:
-                    # We were the first thread to acquire the lock.
+                try:  # Some other thread may have acquired the lock before us, and created the instance...
+                    instance = _instances[cls]
+                except KeyError:  # ...but the instance may also have been deleted at any time, so no TOCTTOU here, either.
                     # Make a strong reference to keep the new instance alive until construction is done.
                     instance = _instances[cls] = super().__new__(cls)
-                else:
-                    # Some other thread acquired the lock before us, and created the instance.
-                    instance = _instances[cls]
             return instance
 
 
diff --git a/unpythonic/symbol.py b/unpythonic/symbol.py
index d95e2eb..e0e5d68 100644
--- a/unpythonic/symbol.py
+++ b/unpythonic/symbol.py
@@ -70,13 +70,11 @@ class sym(Symbol):
         except KeyError:
             # But we still need to be careful to avoid race conditions.
             with _symbols_update_lock:
-                if name not in _symbols:
-                    # We were the first thread to acquire the lock.
+                try:  # Some other thread may have acquired the lock before us, and created the instance...
+                    instance = _symbols[name]
+                except KeyError:  # ...but the instance may also have been deleted at any time, so no TOCTTOU here, either.
                     # Make a strong reference to keep the new instance alive until construction is done.
                     instance = _symbols[name] = super().__new__(cls)
-                else:
-                    # Some other thread acquired the lock before us, and created the instance.
-                    instance = _symbols[name]
             return instance
 
     def __init__(self, name):
@@ -115,13 +113,11 @@ class gsym(Symbol):
             return _gensyms[uid]
         except KeyError:
             with _gensyms_update_lock:
-                if uid not in _gensyms:
-                    instance = _gensyms[uid] = super().__new__(cls)
-                else:
-                    # Provided that one of the `uuid` functions creates the
-                    # `uid`, this case should only be possible when unpickling
-                    # the same pickled gsym in several threads simultaneously.
+                try:  # Some other thread may have acquired the lock before us, and created the instance...
                     instance = _gensyms[uid]
+                except KeyError:  # ...but the instance may also have been deleted at any time, so no TOCTTOU here, either.
+                    # Make a strong reference to keep the new instance alive until construction is done.
+                    instance = _gensyms[uid] = super().__new__(cls)
             return instance
 
     def __init__(self, uid, label):
-- 
2.43.0


From 46d0a80006908543b958eb487519d505e8d39621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 43/68] fix: amb.forall: a line that is not a choice no longer
 evaluates the lines after it eagerly, when it has failed, or once when it
 gives several items

---
 unpythonic/amb.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index cf8d3f8..03c0501 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -110,10 +110,9 @@ def forall(*lines):
         - ``insist x`` = ``guard x``
         - ``deny x`` = ``guard (not x)``
     """
-    # Notation used by the monad implementation for the bind and sequence
-    # operators, with any relevant whitespace.
+    # Notation used by the monad implementation for the bind operator,
+    # with any relevant whitespace.
     bind = " >> "
-    seq = ".then"
 
     class env:
         def __init__(self):
@@ -141,7 +140,6 @@ def forall(*lines):
     bodys = []
     begin_is_open = False
     for j, item in enumerate(lines):
-        is_first = (j == 0)
         is_last = (j == len(lines) - 1)
 
         if isinstance(item, Assignment):
@@ -182,11 +180,8 @@ def forall(*lines):
                 code += f"{bind}(lambda {name}:\nbegin(e.close_over({freevars}), e.assign('{name}', {name}), "
                 begin_is_open = True
             else:
-                if is_first:
-                    code += f"{bind}(lambda _:\nbegin(e.close_over(set()), "
-                    begin_is_open = True
-                else:
-                    code += f"{seq}(\n"
+                code += f"{bind}(lambda _:\nbegin(e.close_over({freevars}), "
+                begin_is_open = True
 
         allcode += code
     allcode += ")" * (len(lines) - 1)
-- 
2.43.0


From 4b7f9858702c86cc11394ea52957d86fa5c4c1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:40 +0000
Subject: [PATCH 44/68] fix: amb: a TypeError raised by a line or by an
 iterable is no longer swallowed, silently giving an empty result

---
 unpythonic/amb.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index 03c0501..91a4b6b 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -207,9 +207,11 @@ def monadify(value, unpack=True):
         return value
     elif unpack:
         try:
-            return MonadicList.from_iterable(value)
+            it = iter(value)
         except TypeError:
             pass  # fall through
+        else:
+            return MonadicList.from_iterable(it)
     return MonadicList(value)  # unit(MonadicList, value)
 
 class MonadicList:  # TODO: This if anything is **the** place to use @typed.
@@ -316,10 +318,7 @@ class MonadicList:  # TODO: This if anything is **the** place to use @typed.
         Eager; the input iterable will be iterated over in its entirety
         to produce the list. If it is consumable, it will be consumed.
         """
-        try:
-            return cls(*iterable)
-        except TypeError:  # maybe a generator; try forcing it before giving up.
-            return cls(*tuple(iterable))
+        return cls(*iterable)
 
     def copy(self):
         """Return a copy of this MonadicList."""
-- 
2.43.0


From 849351041a3b09dad566125c52efef066d8f384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:14 +0000
Subject: [PATCH 45/68] fix: amb.forall: rebinding a name in an inner choice no
 longer changes it for the remaining items of the choices in between; any
 identifier can be a name

---
 unpythonic/amb.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/unpythonic/amb.py b/unpythonic/amb.py
index 91a4b6b..2e00ba7 100644
--- a/unpythonic/amb.py
+++ b/unpythonic/amb.py
@@ -115,28 +115,23 @@ def forall(*lines):
     bind = " >> "
 
     class env:
-        def __init__(self):
-            self.names = set()
-        def assign(self, k, v):
-            self.names.add(k)
-            setattr(self, k, v)
-        # simulate lexical closure property for env attrs
-        #   - freevars: set of names that "fall in" from a surrounding lexical scope
-        def close_over(self, freevars):
-            names_to_clear = {k for k in self.names if k not in freevars}
-            for k in names_to_clear:
-                delattr(self, k)
-            self.names = freevars.copy()
+        pass
 
     # stuff used inside the eval
     e = env()
+    def setenv(bindings):
+        # Make `e` contain exactly the given names, i.e. those in the lexical scope of the line to be run next.
+        e.__dict__.clear()
+        e.__dict__.update(bindings)
     def begin(*exprs):  # args eagerly evaluated by Python
         # begin(e1, e2, ..., en):
         #   perform side effects e1, e2, ..., e[n-1], return the value of en.
         return exprs[-1]
 
     allcode = ""
-    names = set()  # names seen so far (working line by line, so textually!)
+    # Names seen so far (working line by line, so textually!), and the lambda parameters that hold
+    # their values. A name that is bound again gets a new parameter, leaving the outer one intact.
+    names = {}
     bodys = []
     begin_is_open = False
     for j, item in enumerate(lines):
@@ -150,9 +145,8 @@ def forall(*lines):
             raise ValueError(f"name must be valid identifier, got {repr(name)}")
         bodys.append(body)
 
-        freevars = names.copy()  # names from the surrounding scopes
         if name:
-            names.add(name)
+            names[name] = f"v{j}"
 
         # on the last line, don't auto-unpack iterables,
         # to allow easily returning a tuple from the computation
@@ -176,12 +170,10 @@ def forall(*lines):
         # names defined in the env (so that we get proper lexical scoping
         # even though we use an imperative stateful object to implement it)
         if not is_last:
-            if name:
-                code += f"{bind}(lambda {name}:\nbegin(e.close_over({freevars}), e.assign('{name}', {name}), "
-                begin_is_open = True
-            else:
-                code += f"{bind}(lambda _:\nbegin(e.close_over({freevars}), "
-                begin_is_open = True
+            param = names[name] if name else "_"
+            bindings = ", ".join(f"'{k}': {v}" for k, v in names.items())
+            code += f"{bind}(lambda {param}:\nbegin(setenv({{{bindings}}}), "
+            begin_is_open = True
 
         allcode += code
     allcode += ")" * (len(lines) - 1)
@@ -191,7 +183,7 @@ def forall(*lines):
     # The eval'd code doesn't close over the current lexical scope at the site
     # of the eval call, but runs in its own initially blank environment,
     # so provide the necessary names as its globals.
-    mlst = eval(allcode, {"e": e, "bodys": bodys, "begin": begin, "monadify": monadify})
+    mlst = eval(allcode, {"e": e, "setenv": setenv, "bodys": bodys, "begin": begin, "monadify": monadify})
     return tuple(mlst)
 
 # --------------------------------------------------------------------------------
-- 
2.43.0


From 2cfe43eba2d9ad99fba3bb59a4b037518712882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 46/68] fix: fixtco: an exception in a tail call chain no
 longer leaves the calls of the chain marked as being in progress

---
 unpythonic/fix.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 92066ae..130bfc1 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -224,7 +224,8 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                     e.tco_stack.append(env(target=f, cleanup=set()))  # harmless if no TCO
                     return f_memo(*args, **kwargs)
                 finally:
-                    e.tco_stack.pop()
+                    t = e.tco_stack.pop()
+                    e.visited -= t.cleanup
                     e.visited.clear() if mrproper else e.visited.remove(me)
             else:  # cycle detected
                 return bottom(f_fix.__name__, *args, **kwargs)
@@ -259,8 +260,6 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
             if isinstance(v, _jump):
                 you = (v.target, tuplify_bindings(resolve_bindings(v.target, *v.args, **v.kwargs)))
                 if you in e.visited:  # cycle detected
-                    for target in t.cleanup:
-                        e.visited.remove(target)
                     v._claimed = True  # we have handled the jump, by terminating the infinite cycle.
                     return bottom(v.target.__name__, *args, **kwargs)
                 # Just like the f_fix loop adds `f` to `visited` before calling it,
@@ -269,9 +268,6 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                 e.visited.add(you)
                 t.cleanup.add(you)
                 t.target, v.target = v.target, spy  # re-instate the spy
-            else:  # TCO chain ended
-                for target in t.cleanup:
-                    e.visited.remove(target)
             return v
 
         # Putting the memoizer on the outside, TCO call chains do not get
-- 
2.43.0


From cdea59ae34b55deb3715fb53b9020cb90d3db1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:57 +0000
Subject: [PATCH 47/68] fix: fixtco: pass to bottom the arguments of the call
 that closes the cycle, not those of its caller

---
 unpythonic/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index 130bfc1..a4bfcae 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -261,7 +261,7 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
                 you = (v.target, tuplify_bindings(resolve_bindings(v.target, *v.args, **v.kwargs)))
                 if you in e.visited:  # cycle detected
                     v._claimed = True  # we have handled the jump, by terminating the infinite cycle.
-                    return bottom(v.target.__name__, *args, **kwargs)
+                    return bottom(v.target.__name__, *v.args, **v.kwargs)
                 # Just like the f_fix loop adds `f` to `visited` before calling it,
                 # we add the target to `visited` before we let the trampoline jump
                 # into it.
-- 
2.43.0


From a41f5f98c4e2c7afccb9da68a33f14692374f22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:10:45 +0000
Subject: [PATCH 48/68] fix: fixtco: a cycle that closes between a regular call
 and a tail call is detected at its first repetition

---
 unpythonic/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/fix.py b/unpythonic/fix.py
index a4bfcae..7dc6f9e 100644
--- a/unpythonic/fix.py
+++ b/unpythonic/fix.py
@@ -216,7 +216,7 @@ def _fix(bottom=typing.NoReturn, memo=True, *, tco):
         @wraps(f)
         def f_fix(*args, **kwargs):
             e = _get_threadlocals()
-            me = (f_fix, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))
+            me = (f, tuplify_bindings(resolve_bindings(f, *args, **kwargs)))
             mrproper = not e.visited  # on outermost call, scrub visited clean at exit
             if me not in e.visited:
                 try:
-- 
2.43.0


From a902b67aa696cdd70dbde1d7831385a094c400bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:17 +0000
Subject: [PATCH 49/68] fix: raisef: a cause that is falsy is still the cause

---
 unpythonic/excutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index fc9c6b2..fe1d698 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -49,7 +49,7 @@ def raisef(exc, *, cause=None):
             and you would like to `raise ... from ...`, pass that other exception
             instance as `cause`. The default `None` performs a plain `raise ...`.
     """
-    if cause:
+    if cause is not None:
         raise exc from cause
     else:
         raise exc
-- 
2.43.0


From e7f99c81d967d2fca41fc1fb0c73c2f9f26db109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:43 +0000
Subject: [PATCH 50/68] fix: tryf: an exception that no handler matches is no
 longer swallowed

---
 unpythonic/excutil.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpythonic/excutil.py b/unpythonic/excutil.py
index fe1d698..1c43472 100644
--- a/unpythonic/excutil.py
+++ b/unpythonic/excutil.py
@@ -139,6 +139,7 @@ def tryf(body, *handlers, elsef=None, finallyf=None):
                         return handler(exception)
                     else:
                         return handler()
+        raise  # no handler matched
     else:
         if elsef is not None:
             return elsef()
-- 
2.43.0


From b0dd06d140f8fca9494d0d42289aa89a92b3ae9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:43 +0000
Subject: [PATCH 51/68] fix: gtco: a TypeError raised while iterating over the
 last batch is no longer swallowed

---
 unpythonic/gtco.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unpythonic/gtco.py b/unpythonic/gtco.py
index b5cccf3..80bab02 100644
--- a/unpythonic/gtco.py
+++ b/unpythonic/gtco.py
@@ -30,9 +30,11 @@ def gtco(generator):
         else:
             # usually the return value is None, but allow for an iterable
             try:
-                yield from x  # the last batch!
+                iterator = iter(x)
             except TypeError:
                 return x  # passthrough
+            yield from iterator  # the last batch!
+            return
 
 def gtrampolined(gfunc):
     """Decorator for generator functions (i.e. definitions of generators).
-- 
2.43.0


From b68b4955b34103a83de522d07c43be583987d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:31:40 +0000
Subject: [PATCH 52/68] fix: Shim: a fallback object that is falsy is still the
 fallback

---
 unpythonic/collections.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/collections.py b/unpythonic/collections.py
index 95e9da1..898ea9a 100644
--- a/unpythonic/collections.py
+++ b/unpythonic/collections.py
@@ -376,7 +376,7 @@ class Shim:
     def __getattr__(self, k):
         thing = unbox(self._shim_box)
         fallback = self._shim_fallback
-        if not fallback or hasattr(thing, k):
+        if fallback is None or hasattr(thing, k):
             return getattr(thing, k)
         # fallback and not hasattr(thing, k)
         otherthing = unbox(fallback) if isinstance(fallback, box) else fallback
-- 
2.43.0


From 51e89a5bfa9311226d0530db0f94577ab0907234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:23 +0000
Subject: [PATCH 53/68] fix: test fixtures: terminate() inside a testset
 terminates the session, not only that testset

---
 unpythonic/test/fixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/test/fixtures.py b/unpythonic/test/fixtures.py
index 76ea87c..715787c 100644
--- a/unpythonic/test/fixtures.py
+++ b/unpythonic/test/fixtures.py
@@ -692,7 +692,7 @@ def testset(name=None, postproc=None):
         with handlers((Exception, print_and_proceed)):
             yield
     except TestSessionExit:  # pass through, it belongs to session, not us
-        pass
+        raise
     except Exception as err:
         # To highlight the error in the summary, count it as an errored test.
         _update(tests_run, +1)
-- 
2.43.0


From 0e4f6f1cde1dfda132a35cf7d362e40a8fa4c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:52 +0000
Subject: [PATCH 54/68] fix: prefix: an empty tuple no longer crashes the macro
 expansion

---
 unpythonic/syntax/prefix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unpythonic/syntax/prefix.py b/unpythonic/syntax/prefix.py
index 671358f..fde3bc3 100644
--- a/unpythonic/syntax/prefix.py
+++ b/unpythonic/syntax/prefix.py
@@ -212,6 +212,8 @@ def _prefix(block_body):
             # macro-created nodes might not have a ctx, but we run outside in.
             if not (type(tree) is Tuple and type(tree.ctx) is Load):
                 return self.generic_visit(tree)
+            if not tree.elts:  # the empty tuple has no operator, so it is just data
+                return tree
             op, *data = tree.elts
             quotelevel = self.state.quotelevel
             while True:
-- 
2.43.0


From dba5bfd6a872ffd9b7d3f1518c342611c9175b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:24 +0000
Subject: [PATCH 55/68] fix: arity: required_kwargs and optional_kwargs of a
 generic function return a set instead of failing

---
 unpythonic/arity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 2af8ce3..085ebfa 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -301,13 +301,14 @@ def optional_kwargs(f):
     return _kwargs(f, optionals=True)
 
 def _kwargs(f, optionals=True):
+    original_f = f
     f, _ = getfunc(f)
 
     # Integration with the multiple-dispatch system (multimethods).
     from .dispatch import isgeneric, list_methods  # circular import
     if isgeneric(f):
-        thekwargs = {}
-        for (thecallable, type_signature) in list_methods(f):
+        thekwargs = set()
+        for (thecallable, type_signature) in list_methods(original_f):
             thekwargs.update(_kwargs(thecallable, optionals=optionals))
         return thekwargs
 
-- 
2.43.0


From b894f730128e4c67754e2b21d557fd419ce43ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:24 +0000
Subject: [PATCH 56/68] fix: arity: arities of bound methods: do not count self
 of a generic method, see inherited multimethods, and never go negative

---
 unpythonic/arity.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/unpythonic/arity.py b/unpythonic/arity.py
index 085ebfa..fcd8209 100644
--- a/unpythonic/arity.py
+++ b/unpythonic/arity.py
@@ -237,7 +237,9 @@ def arities(f):
         UnknownArity
             If inspection failed.
     """
+    original_f = f
     f, kind = getfunc(f)
+    implicit = 1 if kind in ("instancemethod", "classmethod") else 0  # self/cls is passed implicitly
     try:
         if f in _builtin_arities:
             return _builtin_arities[f]
@@ -249,13 +251,13 @@ def arities(f):
     if isgeneric(f):
         min_lower = _infty
         max_upper = 0
-        for (thecallable, type_signature) in list_methods(f):
+        for (thecallable, type_signature) in list_methods(original_f):
             lower, upper = arities(thecallable)  # let UnknownArity propagate
             if lower < min_lower:
                 min_lower = lower
             if upper > max_upper:
                 max_upper = upper
-        return min_lower, max_upper
+        return max(min_lower - implicit, 0), max_upper - implicit
 
     try:
         lower = 0
@@ -269,10 +271,8 @@ def arities(f):
                     lower += 1  # no default --> required parameter
             elif v.kind is Parameter.VAR_POSITIONAL:
                 upper = _infty  # no upper limit
-        if kind in ("instancemethod", "classmethod"):  # self/cls is passed implicitly
-            lower -= 1
-            upper -= 1
-        return lower, upper
+        # `self`/`cls` might be received by `*args`, which has no minimum arity
+        return max(lower - implicit, 0), upper - implicit
     except (TypeError, ValueError) as e:  # likely an uninspectable method of a builtin
         raise UnknownArity(*e.args)
 
-- 
2.43.0


From 163e1b3ccbd5538aa4a4d23df66172a75a21fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:51 +0000
Subject: [PATCH 57/68] fix: dispatch: allow generic functions whose source
 code is not available (interactive session, exec)

---
 unpythonic/dispatch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index a6e8651..7d080f5 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -500,7 +500,10 @@ def _format_callable(thecallable):
     #    the source file where the decorator was defined, not the original function.
     # function = inspect.unwrap(function)  # maybe this helps? But now I can't reproduce the bug to test it.
     filename = inspect.getsourcefile(function)
-    source, firstlineno = inspect.getsourcelines(function)
+    try:
+        source, firstlineno = inspect.getsourcelines(function)
+    except OSError:  # no source available, e.g. the function was defined in an interactive session or by `exec`
+        firstlineno = function.__code__.co_firstlineno
     return f"{thecallable.__qualname__}{str(thesignature)} from {filename}:{firstlineno}"
 
 def _resolve_multimethod(dispatcher, args, kwargs, *, _partial=False):
-- 
2.43.0


From e3d1d1c72cd68f5712228e4573c7d34b8799cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:52 +0000
Subject: [PATCH 58/68] Revert "fix: test fixtures: terminate() inside a
 testset terminates the session, not only that testset"

This reverts commit 51e89a5bfa9311226d0530db0f94577ab0907234.
---
 unpythonic/test/fixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/test/fixtures.py b/unpythonic/test/fixtures.py
index 715787c..76ea87c 100644
--- a/unpythonic/test/fixtures.py
+++ b/unpythonic/test/fixtures.py
@@ -692,7 +692,7 @@ def testset(name=None, postproc=None):
         with handlers((Exception, print_and_proceed)):
             yield
     except TestSessionExit:  # pass through, it belongs to session, not us
-        raise
+        pass
     except Exception as err:
         # To highlight the error in the summary, count it as an errored test.
         _update(tests_run, +1)
-- 
2.43.0


From 08cbf971d86d21e12360e88b7a2346403fc2d041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:55 +0000
Subject: [PATCH 59/68] fix: curry: a bound generic method sees its
 multimethods' signatures without self

---
 unpythonic/fun.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 7abdbfe..5fe9c35 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -19,7 +19,7 @@ __all__ = ["memoize", "curry", "iscurried",
 
 from collections import namedtuple
 from functools import wraps, partial as functools_partial
-from inspect import signature
+from inspect import ismethod, signature
 from threading import RLock
 from typing import get_type_hints
 
@@ -120,6 +120,11 @@ def _collect_arguments(f, args, kwargs):
         args = f.args + args
         kwargs = {**f.keywords, **kwargs}
         f = f.func
+    # The dispatcher of a generic method lives on the raw function, whose multimethods
+    # have an explicit `self`/`cls` parameter.
+    if ismethod(f) and isgeneric(f):
+        args = (f.__self__,) + args
+        f = f.__func__
     return f, args, kwargs
 
 # Parameter naming is consistent with `functools.partial`.
@@ -165,7 +170,7 @@ def partial(func, *args, **kwargs):
             _raise_multiple_dispatch_error(thecallable, collected_args, collected_kwargs,
                                            candidates=_list_multimethods(thecallable,
                                                                          _extract_self_or_cls(thecallable,
-                                                                                              args)),
+                                                                                              collected_args)),
                                            _partial=True)
     else:  # Not `@generic` or `@typed`; just a function that might have type annotations.
         # It's not very unpythonic-ic to provide this since we already have `@typed` for this use case,
-- 
2.43.0


From a4411e896140b5b6dbc7cb451185041f6f8b1821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:23 +0000
Subject: [PATCH 60/68] fix: dispatch: collect the multimethods of each class
 from its own definitions, not inherited ones

---
 unpythonic/dispatch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpythonic/dispatch.py b/unpythonic/dispatch.py
index 7d080f5..3c53e4c 100644
--- a/unpythonic/dispatch.py
+++ b/unpythonic/dispatch.py
@@ -472,7 +472,7 @@ def _list_multimethods(dispatcher, self_or_cls=None):
             assert False
 
         for base in cls.__mro__[1:]:  # skip the class itself in the MRO
-            if hasattr(base, dispatcher.__name__):  # does this particular super have f?
+            if dispatcher.__name__ in vars(base):  # does this particular super have f (of its own, not inherited)?
                 base_oop_method = getattr(base, dispatcher.__name__)
                 base_raw_function, _ = getfunc(base_oop_method)
                 if isgeneric(base_raw_function):  # it's @generic or @typed
-- 
2.43.0


From 6e30d7caee858d9e5f58accac063e2fd15edc600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:22 +0000
Subject: [PATCH 61/68] fix: envify: names bound by an inner scope shadow the
 parameters; defaults and decorators belong to the outer scope

---
 unpythonic/syntax/lambdatools.py | 54 +++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 8 deletions(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 4b12fd2..52df1aa 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -8,7 +8,7 @@ __all__ = ["multilambda",
            "envify"]
 
 from ast import (Lambda, Name, Assign, Subscript, Call, FunctionDef,
-                 AsyncFunctionDef, Attribute, keyword, Dict, Constant, arg)
+                 AsyncFunctionDef, ClassDef, Attribute, keyword, Dict, Constant, arg)
 from copy import deepcopy
 
 from mcpyrate.quotes import macros, q, u, n, a, h  # noqa: F401
@@ -19,7 +19,7 @@ from mcpyrate.expander import MacroExpander
 from mcpyrate.quotes import is_captured_value
 from mcpyrate.splicing import splice_expression
 from mcpyrate.utils import extract_bindings
-from mcpyrate.walkers import ASTTransformer
+from mcpyrate.walkers import ASTTransformer, ASTVisitor
 
 from ..dynassign import dyn
 from ..env import env
@@ -29,6 +29,8 @@ from ..symbol import sym
 from .letdo import _implicit_do, _do
 from .letdoutil import islet, isenvassign, UnexpandedLetView, UnexpandedEnvAssignView, ExpandedDoView
 from .nameutil import getname
+from .scopeanalyzer import (isnewscope, evaluated_in_surrounding_scope, get_lexical_variables,
+                            get_names_in_store_context, collect_globals, collect_nonlocals)
 from .util import (is_decorated_lambda, isx, has_deco,
                    destructure_decorated_lambda, detect_lambda)
 
@@ -462,6 +464,29 @@ def _envify(block_body):
             argnames.append(a.kwarg.arg)
         return argnames
 
+    class EnvAssignedNamesCollector(ASTVisitor):
+        def examine(self, tree):
+            if isnewscope(tree):
+                return
+            if type(tree) is NamedExpr:
+                self.collect(getname(tree.target))
+            self.generic_visit(tree)
+
+    def getlocals(tree):  # names, besides formal parameters, that a scope binds (or declares `global`) for itself
+        if type(tree) is Lambda:
+            return []
+        elif type(tree) in (FunctionDef, AsyncFunctionDef, ClassDef):
+            names = get_names_in_store_context(tree.body)
+            # `x := ...` is an env-assignment
+            collector = EnvAssignedNamesCollector()
+            collector.visit(tree.body)
+            for name in collector.collected:
+                if name in names:
+                    names.remove(name)
+            nonlocals = collect_nonlocals(tree.body)
+            return [x for x in names if x not in nonlocals] + collect_globals(tree.body)
+        return get_lexical_variables(tree)[0]  # comprehension
+
     def isfunctionoruserlambda(tree):
         return ((type(tree) in (FunctionDef, AsyncFunctionDef)) or
                 (type(tree) is Lambda and id(tree) in userlambdas))
@@ -477,18 +502,22 @@ def _envify(block_body):
 
             bindings = self.state.bindings
             enames = self.state.enames
+            innerbindings = self.state.innerbindings  # those that a function defined here sees (differs in a class body)
 
             def isourupdate(thecall):
                 if type(thecall.func) is not Attribute:
                     return False
                 return thecall.func.attr == "update" and any(isx(thecall.func.value, x) for x in enames)
 
-            if isfunctionoruserlambda(tree):
-                argnames = getargs(tree)
-                if argnames:
+            if isnewscope(tree):
+                # names local to the new scope shadow the outer ones
+                locs = getlocals(tree)
+                newbindings = {k: v for k, v in innerbindings.items() if k not in locs}
+                argnames = getargs(tree) if type(tree) in (FunctionDef, AsyncFunctionDef, Lambda) else []
+                newbindings = {k: v for k, v in newbindings.items() if k not in argnames}
+                if argnames and isfunctionoruserlambda(tree):
                     # prepend env init to function body, update bindings
                     kws = [keyword(arg=k, value=q[n[k]]) for k in argnames]  # "x" --> x
-                    newbindings = bindings.copy()
                     if type(tree) in (FunctionDef, AsyncFunctionDef):
                         ename = gensym("e")
                         theenv = q[h[_envify]()]
@@ -513,7 +542,16 @@ def _envify(block_body):
                         thecall.keywords = kws
                         tree.body = splice_expression(thecall, tree.body, "_here_")
                     newbindings.update({k: q[n[f"{ename}.{k}"]] for k in argnames})  # "x" --> e.x
-                    self.generic_withstate(tree, enames=(enames + [ename]), bindings=newbindings)
+                    enames = enames + [ename]
+                self.generic_withstate(tree, enames=enames, bindings=newbindings,
+                                       innerbindings=(innerbindings if type(tree) is ClassDef else newbindings))
+                # decorators, default values, base classes etc. belong to the surrounding scope
+                for subtree in evaluated_in_surrounding_scope(tree):
+                    self.withstate(subtree, bindings=bindings, innerbindings=innerbindings)
+                if type(tree) in (FunctionDef, AsyncFunctionDef, ClassDef):
+                    self.withstate(tree.decorator_list, bindings=bindings, innerbindings=innerbindings)
+                if type(tree) is ClassDef:
+                    self.withstate(tree.bases + tree.keywords, bindings=bindings, innerbindings=innerbindings)
             else:
                 # leave alone the _envify() added by us
                 if type(tree) is Call and (isx(tree.func, "_envify") or isourupdate(tree)):
@@ -543,4 +581,4 @@ def _envify(block_body):
 
             return self.generic_visit(tree)
 
-    return EnvifyTransformer(bindings={}, enames=[]).visit(block_body)
+    return EnvifyTransformer(bindings={}, innerbindings={}, enames=[]).visit(block_body)
-- 
2.43.0


From 3434046a23f84af2569a0ee7a7d07618768dd514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:06 +0000
Subject: [PATCH 62/68] fix: env: allow a binding named self (so methods work
 in a with envify block)

---
 unpythonic/env.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/env.py b/unpythonic/env.py
index 422eaa8..632c1d6 100644
--- a/unpythonic/env.py
+++ b/unpythonic/env.py
@@ -65,7 +65,7 @@ class env:
         instance._finalized = False  # "let" sets this once env setup done
         return instance
 
-    def __init__(self, **bindings):
+    def __init__(self, /, **bindings):
         for name, value in bindings.items():
             setattr(self, name, value)
 
@@ -143,7 +143,7 @@ class env:
         if self._finalized:
             raise TypeError("clearing a finalized environment not allowed")
         return self._env.clear()
-    def update(self, *mapping, **bindings):
+    def update(self, /, *mapping, **bindings):
         """See `dict.update` for the signature."""
         if mapping:
             if len(mapping) > 1:
-- 
2.43.0


From 020a6900f80158cd84f0e9379a65600297e3e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:06 +0000
Subject: [PATCH 63/68] fix: namedlambda: visit the function of a call with
 named arguments; only string keys name a lambda

---
 unpythonic/syntax/lambdatools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/syntax/lambdatools.py b/unpythonic/syntax/lambdatools.py
index 52df1aa..6dac704 100644
--- a/unpythonic/syntax/lambdatools.py
+++ b/unpythonic/syntax/lambdatools.py
@@ -361,6 +361,7 @@ def _namedlambda(block_body):
                         thelambda.body = self.visit(thelambda.body)
                     else:
                         kw.value = self.visit(kw.value)
+                tree.func = self.visit(tree.func)
                 tree.args = self.visit(tree.args)
                 return tree
             elif type(tree) is Dict:  # {"f": lambda: ..., "g": lambda: ...}
@@ -370,7 +371,7 @@ def _namedlambda(block_body):
                     if k is None:  # {..., **d, ...}
                         tree.values[j] = self.visit(v)
                     else:
-                        if type(k) in (Constant, Str):  # Python 3.8+: ast.Constant
+                        if type(k) in (Constant, Str) and isinstance(getconstant(k), str):  # Python 3.8+: ast.Constant
                             thename = getconstant(k)
                             tree.values[j], thelambda, match = nameit(thename, v)
                             if match:
-- 
2.43.0


From 0b90dbec2575190722150f13505e6908af0177fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:06 +0000
Subject: [PATCH 64/68] fix: partial: do not type-check the default values of
 parameters that were not passed

---
 unpythonic/fun.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index 5fe9c35..b6a2065 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -180,7 +180,8 @@ def partial(func, *args, **kwargs):
         type_signature = get_type_hints(thecallable)
         if type_signature:  # TODO: Python 3.8+: use walrus assignment here
             # Partial mode: allow leaving some parameters unbound.
-            bound_arguments = _resolve_bindings(thecallable, collected_args, collected_kwargs, _partial=True)
+            # Only the arguments passed so far are checked, not the default values.
+            bound_arguments = signature(thecallable).bind_partial(*collected_args, **collected_kwargs)
             # Allow having some parameters without type annotations, in which case those parameters
             # will not be type-checked. `@generic` requires them for all parameters except
             # `self`/`cls`, but type annotations in general have no such requirement.
-- 
2.43.0


From bb34db3a3ae5c84d64c7029b5d52246d42f77d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 65/68] fix: let_syntax, abbrev: accept templates also in the
 let-in and let-where forms, as documented

---
 unpythonic/syntax/letdo.py     |  2 +-
 unpythonic/syntax/letdoutil.py | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/unpythonic/syntax/letdo.py b/unpythonic/syntax/letdo.py
index a94b94e..71efddf 100644
--- a/unpythonic/syntax/letdo.py
+++ b/unpythonic/syntax/letdo.py
@@ -80,7 +80,7 @@ def _destructure_and_apply_let(tree, args, macro_expander, let_transformer, lets
             bs = canonize_bindings(args, letsyntax_mode=letsyntax_mode)
             return let_transformer(bindings=bs, body=tree)
         # haskelly syntax, let[[...] in ...], let[..., where[...]]
-        view = UnexpandedLetView(tree)  # note "tree" here is only the part inside the brackets
+        view = UnexpandedLetView(tree, letsyntax_mode=letsyntax_mode)  # note "tree" here is only the part inside the brackets
         return let_transformer(bindings=view.bindings, body=view.body)
 
 # --------------------------------------------------------------------------------
diff --git a/unpythonic/syntax/letdoutil.py b/unpythonic/syntax/letdoutil.py
index 5b26920..f9a82f1 100644
--- a/unpythonic/syntax/letdoutil.py
+++ b/unpythonic/syntax/letdoutil.py
@@ -459,8 +459,10 @@ class UnexpandedLetView:
         If ``tree`` is just the bracketed part of a haskelly let, then ``mode`` is
         ``None``, because the mode information is contained in the surrounding
         subscript form (expr macro invocation) and hence not accessible from here.
+        In that case, use ``letsyntax_mode=True`` to allow template definitions
+        in the bindings (for ``let_syntax`` and ``abbrev``).
     """
-    def __init__(self, tree):
+    def __init__(self, tree, letsyntax_mode=False):
         data = islet(tree, expanded=False)
         self._has_subscript_container = True
         if not data:
@@ -476,6 +478,8 @@ class UnexpandedLetView:
             self._has_subscript_container = False
         self._tree = tree
         self._type, self.mode = data
+        # `let_syntax` and `abbrev` allow template definitions in the bindings
+        self._letsyntax_mode = letsyntax_mode or self.mode in ("let_syntax", "abbrev")
         if self._type not in ("decorator", "lispy_expr", "in_expr", "where_expr"):
             raise NotImplementedError(f"unknown unexpanded let form type '{self._type}'")  # pragma: no cover, this just catches the internal error if we add new forms but forget to add them here.
 
@@ -499,20 +503,20 @@ class UnexpandedLetView:
                 thetree = self._tree.value
 
             if type(thetree) is Call:  # parenthesis syntax for macro arguments  TODO: Python 3.9+: remove once we bump minimum Python to 3.9
-                return canonize_bindings(thetree.args)
+                return canonize_bindings(thetree.args, letsyntax_mode=self._letsyntax_mode)
             # Subscript
             theargs = _get_subscript_slice(thetree)
-            return canonize_bindings(_canonize_macroargs_node(theargs))
+            return canonize_bindings(_canonize_macroargs_node(theargs), letsyntax_mode=self._letsyntax_mode)
         else:  # haskelly let, `let[[...] in ...]`, `let[..., where[...]]`
             theexpr = self._theexpr_ref()  # `[...] in ...`, `..., where[...]`
             if t == "in_expr":
-                return canonize_bindings(_canonize_macroargs_node(theexpr.left))
+                return canonize_bindings(_canonize_macroargs_node(theexpr.left), letsyntax_mode=self._letsyntax_mode)
             elif t == "where_expr":
                 thewhere = theexpr.elts[1]
                 if type(thewhere) is Call:
-                    return canonize_bindings(thewhere.args)
+                    return canonize_bindings(thewhere.args, letsyntax_mode=self._letsyntax_mode)
                 else:  # Subscript
-                    return canonize_bindings(_canonize_macroargs_node(_get_subscript_slice(thewhere)))
+                    return canonize_bindings(_canonize_macroargs_node(_get_subscript_slice(thewhere)), letsyntax_mode=self._letsyntax_mode)
             assert False
     def _setbindings(self, newbindings):
         t = self._type
-- 
2.43.0


From 487511d89fcd5f78f6bfade74ebffe617fc1b503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:52 +0000
Subject: [PATCH 66/68] fix: let_syntax, abbrev: expand a template used
 directly as its own argument; substitute a name only once

---
 unpythonic/syntax/letsyntax.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/unpythonic/syntax/letsyntax.py b/unpythonic/syntax/letsyntax.py
index 1a52807..19f9a80 100644
--- a/unpythonic/syntax/letsyntax.py
+++ b/unpythonic/syntax/letsyntax.py
@@ -421,8 +421,7 @@ def _substitute_barename(name, value, tree, mode):
                 elif isthisname(tree):
                     if mode == "block":
                         raise SyntaxError(f"cannot substitute block '{name}' into expression position")  # pragma: no cover
-                    tree = subst()
-                    return self.generic_visit(tree)
+                    return subst()  # as-is; the new value may itself contain a variable of this name
                 return self.generic_visit(tree)
         return Splicer().visit(tree)
 
@@ -477,8 +476,8 @@ def _substitute_templates(templates, tree):
                     elif isthisfunc(tree):
                         if mode == "block":
                             raise SyntaxError(f"cannot substitute block '{name}' into expression position")  # pragma: no cover
-                        tree = subst(tree)
-                        return self.generic_visit(tree)
+                        tree = self.generic_visit(tree)  # first, any uses of this template in the arguments
+                        return subst(tree)
                     return self.generic_visit(tree)
             return Splicer().visit(tree)
         tree = splice(tree)
-- 
2.43.0


From ef1bf705e05dbb69977f2fc1dae44972619c4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:33 +0000
Subject: [PATCH 67/68] fix: autocurry: curry also the calls in the default
 values of a lambda

---
 unpythonic/syntax/autocurry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpythonic/syntax/autocurry.py b/unpythonic/syntax/autocurry.py
index 0124c3b..e557352 100644
--- a/unpythonic/syntax/autocurry.py
+++ b/unpythonic/syntax/autocurry.py
@@ -130,6 +130,7 @@ def _autocurry(block_body):
                     tree = q[h[curryf](a[thelambda])]  # plonk it as innermost, we'll sort them later
                     # don't recurse on the lambda we just moved, but recurse inside it.
                     self.withstate(thelambda.body, hascurry=False)
+                    thelambda.args = self.visit(thelambda.args)  # default values
                     thelambda.body = self.visit(thelambda.body)
                     return tree
 
-- 
2.43.0


From 1ea41a6fa71a2c03571413e66626a155a9875f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:33 +0000
Subject: [PATCH 68/68] fix: curry: an invalid signature of a builtin, too,
 means that it cannot be inspected

---
 unpythonic/fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/unpythonic/fun.py b/unpythonic/fun.py
index b6a2065..b89bdad 100644
--- a/unpythonic/fun.py
+++ b/unpythonic/fun.py
@@ -352,7 +352,7 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
             signature(function)
         except ValueError as err:  # inspection failed in inspect.signature()?
             msg = err.args[0]
-            if "no signature found" in msg:
+            if "no signature found" in msg or "has invalid signature" in msg:
                 return fallback()
             raise
 
@@ -369,7 +369,7 @@ def curry(f, *args, _curry_force_call=False, _curry_allow_uninspectable=False, *
                 action, analysis = _decide_curry_action(f, args, kwargs)
             except ValueError as err:  # inspection failed in inspect.signature()?
                 msg = err.args[0]
-                if "no signature found" in msg:
+                if "no signature found" in msg or "has invalid signature" in msg:
                     return fallback()
                 raise
 
-- 
2.43.0

