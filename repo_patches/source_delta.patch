From f4da3112fc96f8b3bd556de341d3c535c5163c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 01/31] fix: publish the dispatch cache pair atomically

---
 .../_internal/resolvers/assembly/compiler.py  | 90 ++++++++-----------
 1 file changed, 39 insertions(+), 51 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 4474e47..e15dc0a 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -475,10 +475,8 @@ class ResolversAssemblyCompiler:
         if _dispatch_cache_enabled_for_class(plan=runtime.plan, class_plan=class_plan):
             slots.extend(
                 (
-                    "_last_sync_dependency",
-                    "_last_sync_method",
-                    "_last_async_dependency",
-                    "_last_async_method",
+                    "_last_sync_dispatch",
+                    "_last_async_dispatch",
                 ),
             )
         if runtime.has_cleanup:
@@ -640,10 +638,8 @@ class ResolversAssemblyCompiler:
         if enable_dispatch_cache:
             body_lines.extend(
                 [
-                    "self._last_sync_dependency = _MISSING_DEP_SLOT",
-                    "self._last_sync_method = None",
-                    "self._last_async_dependency = _MISSING_DEP_SLOT",
-                    "self._last_async_method = None",
+                    "self._last_sync_dispatch = (_MISSING_DEP_SLOT, None)",
+                    "self._last_async_dispatch = (_MISSING_DEP_SLOT, None)",
                 ],
             )
         if runtime.has_cleanup:
@@ -885,10 +881,9 @@ class ResolversAssemblyCompiler:
     ) -> Callable[..., Any]:
         method_name = "aresolve" if is_async else "resolve"
         call_prefix = "aresolve" if is_async else "resolve"
-        cache_dependency_attr_name = (
-            "_last_async_dependency" if is_async else "_last_sync_dependency"
-        )
-        cache_method_attr_name = "_last_async_method" if is_async else "_last_sync_method"
+        # The (dependency, method) pair is published with a single attribute write so a
+        # concurrent resolve can never combine one key with another key's method.
+        dispatch_cache_attr_name = "_last_async_dispatch" if is_async else "_last_sync_dispatch"
         dispatch_workflows = _dispatch_workflows(
             plan=runtime.plan,
             class_plan=class_plan,
@@ -903,44 +898,33 @@ class ResolversAssemblyCompiler:
 
         body: list[ast.stmt] = []
         if enable_dispatch_cache:
+            cached_method_hit = ast.Call(
+                func=_tuple_item(name="last_dispatch", index=1),
+                args=[],
+                keywords=[],
+            )
             body.extend(
                 [
+                    ast.Assign(
+                        targets=[ast.Name(id="last_dispatch", ctx=ast.Store())],
+                        value=ast.Attribute(
+                            value=ast.Name(id="self", ctx=ast.Load()),
+                            attr=dispatch_cache_attr_name,
+                            ctx=ast.Load(),
+                        ),
+                    ),
                     ast.If(
                         test=ast.Compare(
                             left=ast.Name(id="dependency", ctx=ast.Load()),
                             ops=[ast.Is()],
-                            comparators=[
-                                ast.Attribute(
-                                    value=ast.Name(id="self", ctx=ast.Load()),
-                                    attr=cache_dependency_attr_name,
-                                    ctx=ast.Load(),
-                                ),
-                            ],
+                            comparators=[_tuple_item(name="last_dispatch", index=0)],
                         ),
                         body=[
                             ast.Return(
                                 value=(
-                                    ast.Await(
-                                        value=ast.Call(
-                                            func=ast.Attribute(
-                                                value=ast.Name(id="self", ctx=ast.Load()),
-                                                attr=cache_method_attr_name,
-                                                ctx=ast.Load(),
-                                            ),
-                                            args=[],
-                                            keywords=[],
-                                        ),
-                                    )
+                                    ast.Await(value=cached_method_hit)
                                     if is_async
-                                    else ast.Call(
-                                        func=ast.Attribute(
-                                            value=ast.Name(id="self", ctx=ast.Load()),
-                                            attr=cache_method_attr_name,
-                                            ctx=ast.Load(),
-                                        ),
-                                        args=[],
-                                        keywords=[],
-                                    )
+                                    else cached_method_hit
                                 ),
                             ),
                         ],
@@ -1047,21 +1031,14 @@ class ResolversAssemblyCompiler:
                     targets=[
                         ast.Attribute(
                             value=ast.Name(id="self", ctx=ast.Load()),
-                            attr=cache_dependency_attr_name,
+                            attr=dispatch_cache_attr_name,
                             ctx=ast.Store(),
                         ),
                     ],
-                    value=cache_dependency,
-                ),
-                ast.Assign(
-                    targets=[
-                        ast.Attribute(
-                            value=ast.Name(id="self", ctx=ast.Load()),
-                            attr=cache_method_attr_name,
-                            ctx=ast.Store(),
-                        ),
-                    ],
-                    value=ast.Name(id="cached_method", ctx=ast.Load()),
+                    value=ast.Tuple(
+                        elts=[cache_dependency, ast.Name(id="cached_method", ctx=ast.Load())],
+                        ctx=ast.Load(),
+                    ),
                 ),
                 ast.Return(
                     value=ast.Await(value=cached_method_call) if is_async else cached_method_call,
@@ -1669,6 +1646,14 @@ class ResolversAssemblyCompiler:
         return expression
 
 
+def _tuple_item(*, name: str, index: int) -> ast.Subscript:
+    return ast.Subscript(
+        value=ast.Name(id=name, ctx=ast.Load()),
+        slice=ast.Constant(value=index),
+        ctx=ast.Load(),
+    )
+
+
 def _compile_function(
     *,
     name: str,
@@ -1802,6 +1787,9 @@ def _resolver_init(
         self._last_sync_method = None
         self._last_async_dependency = _MISSING_DEP_SLOT
         self._last_async_method = None
+    if _dispatch_cache_enabled_for_class(plan=runtime.plan, class_plan=class_plan):
+        self._last_sync_dispatch = (_MISSING_DEP_SLOT, None)
+        self._last_async_dispatch = (_MISSING_DEP_SLOT, None)
     if runtime.has_cleanup:
         self._cleanup_enabled = cleanup_enabled
         self._cleanup_callbacks = []
-- 
2.43.0


From c43fe8716211f222557fde0e612f18633b1acca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 02/31] fix: claim the pooled scope resolver under a lock

---
 .../_internal/resolvers/assembly/compiler.py       | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index e15dc0a..7da4eb5 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -304,6 +304,7 @@ class ResolversAssemblyCompiler:
             "strip_non_component_annotation": strip_non_component_annotation,
             "strip_provider_annotation": strip_provider_annotation,
             "TracebackType": TracebackType,
+            "_scope_pool_lock": threading.Lock(),
         }
 
         for workflow in runtime.plan.workflows:
@@ -810,19 +811,18 @@ class ResolversAssemblyCompiler:
             pooled_lines = [
                 "if context is None and self._context is None and self._parent_context_resolver is None:",
                 f"    _pooled = self._scope_resolver_{target_level}",
-                "    if not _pooled._active:",
+                # Claim under a lock: two threads must never be handed the same scope.
+                "    with _scope_pool_lock:",
+                "        _claimed = not _pooled._active",
+                "        _pooled._active = True",
+                "    if _claimed:",
                 "        _pooled._context = None",
                 "        _pooled._parent_context_resolver = self",
                 "        _pooled._owned_scope_resolvers = ()",
             ]
             for cache_slot in runtime.cache_slots_by_owner_level.get(target_level, ()):
                 pooled_lines.append(f"        _pooled._cache_{cache_slot} = _MISSING_CACHE")
-            pooled_lines.extend(
-                [
-                    "        _pooled._active = True",
-                    "        return _pooled",
-                ],
-            )
+            pooled_lines.append("        return _pooled")
             transition_lines.extend(pooled_lines)
         transition_lines.extend(
             [
-- 
2.43.0


From 063fd8472cac3976791bdb9eab0280792382989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 03/31] fix: compile the root resolver once under concurrent
 first use

---
 src/diwire/_internal/container.py | 52 +++++++++++++++++--------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index bac811d..e40e517 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import functools
 import inspect
 import logging
+import threading
 from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapping
 from contextlib import contextmanager, suppress
 from dataclasses import dataclass
@@ -186,6 +187,7 @@ class Container:
         self._injected_callable_inspector = InjectedCallableInspector()
 
         self._root_resolver: ResolverProtocol | None = None
+        self._compile_lock = threading.RLock()
         self._graph_revision: int = 0
         self._registration_mutation_depth: int = 0
         self._registration_mutation_snapshot: _ContainerGraphSnapshot | None = None
@@ -2439,32 +2441,34 @@ class Container:
                 service = container.resolve(Service)
 
         """
-        if self._root_resolver is None:
-            root_resolver = self._resolvers_manager.build_root_resolver(
-                root_scope=self._root_scope,
-                registrations=self._providers_registrations,
-            )
-            if self._open_generic_registry.has_specs():
-                has_async_specs = any(
-                    spec.is_async for spec in self._providers_registrations.values()
-                ) or any(spec.is_async for spec in self._open_generic_registry.values())
-                root_resolver = cast(
-                    "ResolverProtocol",
-                    OpenGenericResolver(
-                        base_resolver=root_resolver,
-                        registry=self._open_generic_registry,
-                        root_scope=self._root_scope,
-                        has_async_specs=has_async_specs,
-                        scope_level=self._root_scope.level,
-                    ),
+        # Concurrent first resolutions must share one root resolver (and its singletons).
+        with self._compile_lock:
+            if self._root_resolver is None:
+                root_resolver = self._resolvers_manager.build_root_resolver(
+                    root_scope=self._root_scope,
+                    registrations=self._providers_registrations,
                 )
-            if self._use_resolver_context:
-                root_resolver = self._resolver_context._wrap_resolver(root_resolver)  # noqa: SLF001
-            self._root_resolver = root_resolver
-        if self._missing_policy is MissingPolicy.ERROR and not self._use_resolver_context:
-            self._bind_container_entrypoints(target=self._root_resolver)
+                if self._open_generic_registry.has_specs():
+                    has_async_specs = any(
+                        spec.is_async for spec in self._providers_registrations.values()
+                    ) or any(spec.is_async for spec in self._open_generic_registry.values())
+                    root_resolver = cast(
+                        "ResolverProtocol",
+                        OpenGenericResolver(
+                            base_resolver=root_resolver,
+                            registry=self._open_generic_registry,
+                            root_scope=self._root_scope,
+                            has_async_specs=has_async_specs,
+                            scope_level=self._root_scope.level,
+                        ),
+                    )
+                if self._use_resolver_context:
+                    root_resolver = self._resolver_context._wrap_resolver(root_resolver)  # noqa: SLF001
+                self._root_resolver = root_resolver
+            if self._missing_policy is MissingPolicy.ERROR and not self._use_resolver_context:
+                self._bind_container_entrypoints(target=self._root_resolver)
 
-        return self._root_resolver
+            return self._root_resolver
 
     def _invalidate_compilation(self) -> None:
         """Discard compiled resolver state and restore original container methods.
-- 
2.43.0


From 427051d2734505314b89b368157d637a38b57962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 04/31] fix: report a skipped skippable scope as a scope
 mismatch

---
 src/diwire/_internal/resolvers/assembly/compiler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 7da4eb5..6db9256 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1621,7 +1621,11 @@ class ResolversAssemblyCompiler:
                 expression = f"self._root_resolver.resolve_{dependency_slot}()"
             else:
                 owner_scope = runtime.scopes_by_level[dependency_workflow.scope_level]
-                expression = f"self.{owner_scope.resolver_attr_name}.resolve_{dependency_slot}()"
+                # A skippable scope may be absent; the slot method reports that mismatch.
+                if not owner_scope.skippable:
+                    expression = (
+                        f"self.{owner_scope.resolver_attr_name}.resolve_{dependency_slot}()"
+                    )
 
         if (
             dependency_workflow.scope_level == class_plan.scope_level
-- 
2.43.0


From 7d6e44acb1d136f931ea79d700acf56aea4af30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 05/31] fix: keep the default of a skipped positional parameter

---
 .../_internal/resolvers/assembly/planner.py   | 39 +++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/diwire/_internal/resolvers/assembly/planner.py b/src/diwire/_internal/resolvers/assembly/planner.py
index 4830b49..edf1132 100644
--- a/src/diwire/_internal/resolvers/assembly/planner.py
+++ b/src/diwire/_internal/resolvers/assembly/planner.py
@@ -353,6 +353,7 @@ class ResolverGenerationPlanner:
             dependency_requires_async.append(requires_async)
             sync_arguments.append(sync_argument)
             async_arguments.append(async_argument)
+        self._omit_unreachable_positional_only(spec=spec, dependency_plans=dependency_plans)
 
         scope_plan = scope_by_level[spec.scope.level]
         requires_async = self._requires_async_by_slot[spec.slot]
@@ -863,9 +864,47 @@ class ResolverGenerationPlanner:
             current_index = order_by_name.get(dependency.parameter.name)
             if current_index is None or current_index < last_index:
                 return False
+            if (
+                dependency.parameter.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD
+                and current_index > last_index + 1
+            ):
+                # A skipped parameter keeps its default: values after it go by keyword.
+                return False
             last_index = current_index
         return True
 
+    def _omit_unreachable_positional_only(
+        self,
+        *,
+        spec: ProviderSpec,
+        dependency_plans: list[ProviderDependencyPlan],
+    ) -> None:
+        """Keep defaults of positional-only parameters that follow a skipped one."""
+        provider_callable = self._provider_callable_for_signature(spec=spec)
+        if not dependency_plans or provider_callable is None:
+            return
+
+        parameters = list(inspect.signature(provider_callable).parameters.values())
+        if spec.concrete_type is not None and parameters:
+            parameters = parameters[1:]
+
+        provided_names = {plan.dependency.parameter.name for plan in dependency_plans}
+        gap_seen = False
+        unreachable_names: set[str] = set()
+        for parameter in parameters:
+            if parameter.kind is not inspect.Parameter.POSITIONAL_ONLY:
+                break
+            if gap_seen and parameter.default is not inspect.Parameter.empty:
+                unreachable_names.add(parameter.name)
+            gap_seen = gap_seen or parameter.name not in provided_names
+        for index, plan in enumerate(dependency_plans):
+            if plan.dependency.parameter.name in unreachable_names:
+                dependency_plans[index] = ProviderDependencyPlan(
+                    kind="omit",
+                    dependency=plan.dependency,
+                    dependency_index=plan.dependency_index,
+                )
+
     def _provider_callable_for_signature(self, *, spec: ProviderSpec) -> Any | None:
         if spec.concrete_type is not None:
             return spec.concrete_type.__init__
-- 
2.43.0


From 1100bfaf34e231573569a7d2027b02553ff05383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 06/31] fix: run remaining open-generic cleanups after a
 BaseException

---
 src/diwire/_internal/open_generics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e7540d8..0c03d81 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1325,7 +1325,7 @@ def _execute_sync_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 _raise_async_cleanup_in_sync_context()
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
@@ -1347,7 +1347,7 @@ async def _execute_async_cleanup_callbacks(
                 cleanup_callback(exc_type, exc_value, traceback)
             else:
                 await cleanup_callback(exc_type, exc_value, traceback)
-        except Exception as error:  # noqa: BLE001
+        except BaseException as error:  # noqa: BLE001
             if exc_type is None and cleanup_error is None:
                 cleanup_error = error
     if exc_type is None and cleanup_error is not None:
-- 
2.43.0


From fcaab19a04121ab6adf8fee851e5952e5872bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 07/31] fix: keep open-generic cleanups of shared scope
 resolvers apart

---
 src/diwire/_internal/open_generics.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 0c03d81..ba6c52a 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -931,6 +931,11 @@ class _OpenGenericResolver:  # pragma: no cover
         self._cleanup_callbacks.append((kind, callback))
 
     def _resolver_cleanup_callbacks(self) -> list[tuple[int, Any]] | None:
+        if self._scope_level != self._root_scope.level:
+            runtime = getattr(self._base_resolver, "_runtime", None)
+            if getattr(runtime, "uses_stateless_scope_reuse", False):
+                # The base scope resolver may be shared between scopes: own the callbacks here.
+                return None
         callbacks = getattr(self._base_resolver, "_cleanup_callbacks", None)
         if isinstance(callbacks, list):
             return callbacks
-- 
2.43.0


From 68732c57ac225a42b63acfdfd83aaacd88635103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 08/31] fix: open-generic providers keep skipped positional
 parameters and *args apart

---
 src/diwire/_internal/open_generics.py | 74 +++++++++++++++++----------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index ba6c52a..768278c 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -762,46 +762,30 @@ class _OpenGenericResolver:  # pragma: no cover
         )
 
     def _resolve_call_arguments_sync(self, *, match: _OpenGenericMatch) -> _CallArguments:
-        positional_arguments: list[Any] = []
-        keyword_arguments: dict[str, Any] = {}
+        values: list[tuple[ProviderDependency, Any]] = []
         for binding in match.spec.bindings:
             value = self._resolve_binding_value_sync(
                 binding=binding,
                 typevar_map=match.typevar_map,
             )
-            _append_call_argument(
-                dependency=binding.dependency,
-                value=value,
-                positional_arguments=positional_arguments,
-                keyword_arguments=keyword_arguments,
-            )
+            values.append((binding.dependency, value))
+        call_arguments = _bind_call_arguments(provider=match.spec.provider, values=values)
         if match.spec.provider_is_inject_wrapper:
-            keyword_arguments[INJECT_RESOLVER_KWARG] = self
-        return _CallArguments(
-            args=tuple(positional_arguments),
-            kwargs=keyword_arguments,
-        )
+            call_arguments.kwargs[INJECT_RESOLVER_KWARG] = self
+        return call_arguments
 
     async def _resolve_call_arguments_async(self, *, match: _OpenGenericMatch) -> _CallArguments:
-        positional_arguments: list[Any] = []
-        keyword_arguments: dict[str, Any] = {}
+        values: list[tuple[ProviderDependency, Any]] = []
         for binding in match.spec.bindings:
             value = await self._resolve_binding_value_async(
                 binding=binding,
                 typevar_map=match.typevar_map,
             )
-            _append_call_argument(
-                dependency=binding.dependency,
-                value=value,
-                positional_arguments=positional_arguments,
-                keyword_arguments=keyword_arguments,
-            )
+            values.append((binding.dependency, value))
+        call_arguments = _bind_call_arguments(provider=match.spec.provider, values=values)
         if match.spec.provider_is_inject_wrapper:
-            keyword_arguments[INJECT_RESOLVER_KWARG] = self
-        return _CallArguments(
-            args=tuple(positional_arguments),
-            kwargs=keyword_arguments,
-        )
+            call_arguments.kwargs[INJECT_RESOLVER_KWARG] = self
+        return call_arguments
 
     def _resolve_binding_value_sync(
         self,
@@ -998,6 +982,44 @@ class _CallArguments:
     kwargs: dict[str, Any]
 
 
+def _bind_call_arguments(
+    *,
+    provider: UserProviderObject,
+    values: list[tuple[ProviderDependency, Any]],
+) -> _CallArguments:
+    """Bind values to provider parameters; skipped positional parameters keep their defaults."""
+    positional_values: dict[str, Any] = {}
+    star_arguments: list[Any] = []
+    keyword_arguments: dict[str, Any] = {}
+    for dependency, value in values:
+        kind = cast("Any", dependency.parameter.kind)
+        if kind is inspect.Parameter.POSITIONAL_ONLY:
+            positional_values[dependency.parameter.name] = value
+            continue
+        _append_call_argument(
+            dependency=dependency,
+            value=value,
+            positional_arguments=star_arguments,
+            keyword_arguments=keyword_arguments,
+        )
+
+    if not positional_values and not star_arguments:
+        return _CallArguments(args=(), kwargs=keyword_arguments)
+
+    positional_arguments: list[Any] = []
+    for parameter in inspect.signature(cast("Any", provider)).parameters.values():
+        if parameter.kind is inspect.Parameter.POSITIONAL_ONLY:
+            positional_arguments.append(positional_values.get(parameter.name, parameter.default))
+        elif parameter.kind is inspect.Parameter.POSITIONAL_OR_KEYWORD and star_arguments:
+            positional_arguments.append(
+                keyword_arguments.pop(parameter.name, parameter.default),
+            )
+    return _CallArguments(
+        args=(*positional_arguments, *star_arguments),
+        kwargs=keyword_arguments,
+    )
+
+
 def _append_call_argument(
     *,
     dependency: ProviderDependency,
-- 
2.43.0


From 70944b2746706ee3ebeff89828e21656f4d36c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 09/31] fix: open-generic providers use the parameter default
 for a missing Maybe dependency

---
 src/diwire/_internal/open_generics.py | 45 +++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 768278c..1661855 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -456,6 +456,39 @@ class _OpenGenericResolver:  # pragma: no cover
             return None
         return await self.aresolve(inner_dependency)
 
+    def _resolve_missing_maybe_argument(
+        self,
+        *,
+        dependency: Any,
+        parameter: inspect.Parameter,
+    ) -> Any:
+        """Return the argument for a Maybe dependency that is missing, else _MAYBE_UNHANDLED."""
+        if not is_maybe_annotation(dependency):
+            return _MAYBE_UNHANDLED
+        inner_dependency = strip_maybe_annotation(dependency)
+        if is_from_context_annotation(inner_dependency):
+            context_key = strip_non_component_annotation(
+                strip_from_context_annotation(inner_dependency),
+            )
+            resolve_from_context = getattr(self._base_resolver, "_resolve_from_context", None)
+            if not callable(resolve_from_context):
+                return _MAYBE_UNHANDLED
+            try:
+                resolve_from_context(context_key)
+            except DIWireDependencyNotRegisteredError:
+                pass
+            else:
+                return _MAYBE_UNHANDLED
+        elif self._is_registered_dependency(inner_dependency):
+            return _MAYBE_UNHANDLED
+        if parameter.default is not inspect.Parameter.empty:
+            return parameter.default
+        if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+            return ()
+        if parameter.kind is inspect.Parameter.VAR_KEYWORD:
+            return {}
+        return None
+
     def _resolve_maybe_from_context_sync(self, dependency: Any) -> Any | None:
         context_key = strip_non_component_annotation(strip_from_context_annotation(dependency))
         resolve_from_context = getattr(self._base_resolver, "_resolve_from_context", None)
@@ -806,6 +839,12 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
+        missing_value = self._resolve_missing_maybe_argument(
+            dependency=resolved_dependency,
+            parameter=binding.dependency.parameter,
+        )
+        if missing_value is not _MAYBE_UNHANDLED:
+            return missing_value
         return self.resolve(resolved_dependency)
 
     async def _resolve_binding_value_async(
@@ -827,6 +866,12 @@ class _OpenGenericResolver:  # pragma: no cover
                 "unresolved TypeVars after substitution."
             )
             raise DIWireInvalidGenericTypeArgumentError(msg)
+        missing_value = self._resolve_missing_maybe_argument(
+            dependency=resolved_dependency,
+            parameter=binding.dependency.parameter,
+        )
+        if missing_value is not _MAYBE_UNHANDLED:
+            return missing_value
         return await self.aresolve(resolved_dependency)
 
     def _build_generator_sync(
-- 
2.43.0


From 5d2a7625e39d2346bd89128ff11b960afcd43ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 10/31] fix: a missing Maybe[FromContext[...]] provider
 dependency uses its default or None

---
 .../_internal/resolvers/assembly/compiler.py  | 39 ++++++++++++++++---
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 6db9256..1f126fb 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -64,6 +64,14 @@ class _ArgumentPart:
     name: str | None = None
 
 
+@dataclass(frozen=True, slots=True)
+class _OptionalContextKey:
+    """Context key of a Maybe[FromContext[...]] dependency and the value used when missing."""
+
+    key: Any
+    default: Any
+
+
 @dataclass(slots=True)
 class _ResolverRuntime:
     plan: ResolverGenerationPlan
@@ -188,13 +196,16 @@ class ResolversAssemblyCompiler:
                 context_key_name = dependency_plan.ctx_key_global_name
                 if context_key_name is None:
                     continue
-                context_key_by_name[context_key_name] = strip_from_context_annotation(
-                    strip_non_component_annotation(
-                        strip_maybe_annotation(
-                            registration.dependencies[dependency_plan.dependency_index].provides,
-                        ),
-                    ),
+                dependency = registration.dependencies[dependency_plan.dependency_index]
+                context_key = strip_from_context_annotation(
+                    strip_non_component_annotation(strip_maybe_annotation(dependency.provides)),
                 )
+                if is_maybe_annotation(dependency.provides):
+                    context_key = _OptionalContextKey(
+                        key=context_key,
+                        default=_missing_context_value(parameter=dependency.parameter),
+                    )
+                context_key_by_name[context_key_name] = context_key
 
         all_slots_by_key = {key: tuple(slots) for key, slots in all_slots_by_key_mut.items()}
 
@@ -2044,7 +2055,23 @@ def _build_transition_plan_to_target(
     return tuple(transition_plan)
 
 
+def _missing_context_value(*, parameter: inspect.Parameter) -> Any:
+    if parameter.default is not inspect.Parameter.empty:
+        return parameter.default
+    if parameter.kind is inspect.Parameter.VAR_POSITIONAL:
+        return ()
+    if parameter.kind is inspect.Parameter.VAR_KEYWORD:
+        return {}
+    return None
+
+
 def _resolver_resolve_from_context(self: Any, key: Any) -> Any:
+    if isinstance(key, _OptionalContextKey):
+        try:
+            return _resolver_resolve_from_context(self, key.key)
+        except DIWireDependencyNotRegisteredError:
+            return key.default
+
     context = self._context
     if context is not None and key in context:
         return context[key]
-- 
2.43.0


From 478972211e698df1f7b8b383b8a7d956222cd097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 11/31] fix: reuse the deepest active scope for an injected
 call

---
 src/diwire/_internal/container.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index e40e517..37d5774 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2404,6 +2404,12 @@ class Container:
         except DIWireScopeMismatchError as error:
             if self._is_already_deep_enough_scope_error(error):
                 return base_resolver, False
+            # The deepest scope cannot enter anything; it already covers every known scope.
+            if (
+                str(error).startswith("Cannot enter deeper scope from level ")
+                and self._find_scope_by_level(scope_level=target_scope.level) is not None
+            ):
+                return base_resolver, False
             raise
 
     @staticmethod
-- 
2.43.0


From 8d0b56ae5333d6255f08bac5efd1ef6bc012e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 12/31] fix: reject diwire_context when the target scope is
 already the current one

---
 src/diwire/_internal/container.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 37d5774..fe1d836 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2393,7 +2393,7 @@ class Container:
             if context is None:
                 return base_resolver.enter_scope(target_scope), True
             try:
-                return base_resolver.enter_scope(target_scope, context=context), True
+                scoped_resolver = base_resolver.enter_scope(target_scope, context=context)
             except TypeError as error:
                 msg = (
                     "Resolver does not support context-aware scope entry. "
@@ -2401,6 +2401,8 @@ class Container:
                     f"'{INJECT_CONTEXT_KWARG}'."
                 )
                 raise DIWireInvalidRegistrationError(msg) from error
+            # Entering the current scope returns the same resolver and ignores the context.
+            return scoped_resolver, scoped_resolver is not base_resolver
         except DIWireScopeMismatchError as error:
             if self._is_already_deep_enough_scope_error(error):
                 return base_resolver, False
-- 
2.43.0


From 66b8d83ee9c8047e5e4cc72f6ba351fa0abf7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 13/31] fix: a missing Injected[Maybe[FromContext[...]]] keeps
 the parameter default

---
 src/diwire/_internal/container.py | 52 ++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index fe1d836..35f56c5 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2188,9 +2188,10 @@ class Container:
             dependency = injected_parameter.dependency
             if is_maybe_annotation(dependency):
                 inner_dependency = strip_maybe_annotation(dependency)
-                if is_provider_annotation(inner_dependency) or is_from_context_annotation(
-                    inner_dependency,
-                ):
+                if is_from_context_annotation(inner_dependency):
+                    # Resolved with the context parameters below.
+                    continue
+                if is_provider_annotation(inner_dependency):
                     bound_arguments.arguments[injected_parameter.name] = resolver.resolve(
                         dependency,
                     )
@@ -2211,9 +2212,22 @@ class Container:
         for context_parameter in context_parameters:
             if context_parameter.name in bound_arguments.arguments:
                 continue
-            bound_arguments.arguments[context_parameter.name] = resolver.resolve(
-                context_parameter.dependency,
-            )
+            dependency = context_parameter.dependency
+            try:
+                value = resolver.resolve(
+                    strip_maybe_annotation(dependency)
+                    if is_maybe_annotation(dependency)
+                    else dependency,
+                )
+            except DIWireDependencyNotRegisteredError:
+                if not is_maybe_annotation(dependency):
+                    raise
+                if signature.parameters[context_parameter.name].default is not (
+                    inspect.Parameter.empty
+                ):
+                    continue
+                value = None
+            bound_arguments.arguments[context_parameter.name] = value
         return bound_arguments
 
     async def _resolve_async_injected_arguments(
@@ -2233,9 +2247,10 @@ class Container:
             dependency = injected_parameter.dependency
             if is_maybe_annotation(dependency):
                 inner_dependency = strip_maybe_annotation(dependency)
-                if is_provider_annotation(inner_dependency) or is_from_context_annotation(
-                    inner_dependency,
-                ):
+                if is_from_context_annotation(inner_dependency):
+                    # Resolved with the context parameters below.
+                    continue
+                if is_provider_annotation(inner_dependency):
                     bound_arguments.arguments[injected_parameter.name] = await resolver.aresolve(
                         dependency,
                     )
@@ -2258,9 +2273,22 @@ class Container:
         for context_parameter in context_parameters:
             if context_parameter.name in bound_arguments.arguments:
                 continue
-            bound_arguments.arguments[context_parameter.name] = await resolver.aresolve(
-                context_parameter.dependency,
-            )
+            dependency = context_parameter.dependency
+            try:
+                value = await resolver.aresolve(
+                    strip_maybe_annotation(dependency)
+                    if is_maybe_annotation(dependency)
+                    else dependency,
+                )
+            except DIWireDependencyNotRegisteredError:
+                if not is_maybe_annotation(dependency):
+                    raise
+                if signature.parameters[context_parameter.name].default is not (
+                    inspect.Parameter.empty
+                ):
+                    continue
+                value = None
+            bound_arguments.arguments[context_parameter.name] = value
         return bound_arguments
 
     def _is_registered_in_resolver(
-- 
2.43.0


From ab0481d1f63092c970137f3d0770d92f9a0c46d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 14/31] fix: ignore unhashable non-component metadata in
 dependency keys

---
 src/diwire/_internal/container.py             |  3 +-
 src/diwire/_internal/injection.py             |  3 +-
 src/diwire/_internal/markers.py               | 37 +++++++++++++
 src/diwire/_internal/providers.py             |  5 +-
 .../_internal/resolvers/assembly/compiler.py  | 52 ++++++++++++-------
 5 files changed, 76 insertions(+), 24 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 35f56c5..e57cedb 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -40,6 +40,7 @@ from diwire._internal.markers import (
     is_maybe_annotation,
     is_provider_annotation,
     strip_all_annotation,
+    strip_dependency_metadata,
     strip_maybe_annotation,
     strip_non_component_annotation,
     strip_provider_annotation,
@@ -2159,7 +2160,7 @@ class Container:
             or is_maybe_annotation(dependency)
             or is_provider_annotation(dependency)
         ):
-            return dependency
+            return strip_dependency_metadata(dependency)
         return strip_non_component_annotation(dependency)
 
     def _extract_provider_inner_dependency_fast(self, dependency: Any) -> Any | None:
diff --git a/src/diwire/_internal/injection.py b/src/diwire/_internal/injection.py
index 1ba6091..47fdc2f 100644
--- a/src/diwire/_internal/injection.py
+++ b/src/diwire/_internal/injection.py
@@ -8,6 +8,7 @@ from typing import Annotated, Any, get_args, get_origin, get_type_hints
 from diwire._internal.markers import (
     InjectedMarker,
     is_from_context_annotation,
+    strip_dependency_metadata,
     strip_from_context_annotation,
 )
 
@@ -96,7 +97,7 @@ class InjectedCallableInspector:
             injected_parameters.append(
                 InjectedParameter(
                     name=parameter.name,
-                    dependency=dependency,
+                    dependency=strip_dependency_metadata(dependency),
                 ),
             )
 
diff --git a/src/diwire/_internal/markers.py b/src/diwire/_internal/markers.py
index 6c58d38..1e88a81 100644
--- a/src/diwire/_internal/markers.py
+++ b/src/diwire/_internal/markers.py
@@ -57,6 +57,16 @@ class AllMarker(NamedTuple):
     dependency_key: Any
 
 
+_DEPENDENCY_METADATA_TYPES = (
+    Component,
+    InjectedMarker,
+    FromContextMarker,
+    MaybeMarker,
+    ProviderMarker,
+    AllMarker,
+)
+
+
 if TYPE_CHECKING:
     Injected = Union[T, T]  # noqa: UP007,PYI016
     """Mark a parameter for container-driven injection.
@@ -415,6 +425,33 @@ def strip_non_component_annotation(annotation: Any) -> Any:
     return _build_annotated((origin, *component_metadata))
 
 
+def strip_dependency_metadata(annotation: Any) -> Any:
+    """Strip metadata DIWire does not use from a dependency annotation.
+
+    ``Component`` metadata and DIWire markers (including the key inside provider markers) are kept.
+
+    Args:
+        annotation: Annotation value to inspect or normalize.
+
+    """
+    if get_origin(annotation) is not Annotated:
+        return annotation
+    parameter_type, *metadata = get_args(annotation)
+    used_metadata = tuple(
+        ProviderMarker(
+            dependency_key=strip_dependency_metadata(item.dependency_key),
+            is_async=item.is_async,
+        )
+        if isinstance(item, ProviderMarker)
+        else item
+        for item in metadata
+        if isinstance(item, _DEPENDENCY_METADATA_TYPES)
+    )
+    if not used_metadata:
+        return parameter_type
+    return _build_annotated((parameter_type, *used_metadata))
+
+
 def _extract_provider_marker(annotation: Any) -> ProviderMarker | None:
     if get_origin(annotation) is not Annotated:
         return None
diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index fbf223e..c700121 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -22,6 +22,7 @@ from typing import (
 )
 
 from diwire._internal.lock_mode import LockMode
+from diwire._internal.markers import strip_dependency_metadata
 from diwire._internal.scope import BaseScope
 from diwire.exceptions import (
     DIWireInvalidProviderSpecError,
@@ -441,7 +442,7 @@ class ProviderDependenciesExtractor:
 
             dependencies.append(
                 ProviderDependency(
-                    provides=provides,
+                    provides=strip_dependency_metadata(provides),
                     parameter=parameter,
                 ),
             )
@@ -487,7 +488,7 @@ class ProviderDependenciesExtractor:
                 raise DIWireInvalidProviderSpecError(msg)
 
             validated_dependencies_by_name[parameter_name] = ProviderDependency(
-                provides=dependency.provides,
+                provides=strip_dependency_metadata(dependency.provides),
                 parameter=signature_parameter,
             )
 
diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 1f126fb..7743dd1 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -1076,21 +1076,38 @@ class ResolversAssemblyCompiler:
             )
 
         if equality_workflows:
-            body.append(
-                ast.Assign(
-                    targets=[ast.Name(id="slot", ctx=ast.Store())],
-                    value=ast.Call(
-                        func=ast.Attribute(
-                            value=ast.Name(id="_dep_eq_slot_by_key", ctx=ast.Load()),
-                            attr="get",
-                            ctx=ast.Load(),
-                        ),
-                        args=[
-                            ast.Name(id="dependency", ctx=ast.Load()),
-                            ast.Name(id="_MISSING_DEP_SLOT", ctx=ast.Load()),
-                        ],
-                        keywords=[],
+            slot_lookup = ast.Assign(
+                targets=[ast.Name(id="slot", ctx=ast.Store())],
+                value=ast.Call(
+                    func=ast.Attribute(
+                        value=ast.Name(id="_dep_eq_slot_by_key", ctx=ast.Load()),
+                        attr="get",
+                        ctx=ast.Load(),
                     ),
+                    args=[
+                        ast.Name(id="dependency", ctx=ast.Load()),
+                        ast.Name(id="_MISSING_DEP_SLOT", ctx=ast.Load()),
+                    ],
+                    keywords=[],
+                ),
+            )
+            # Keys with unhashable non-component metadata are normalized by the fallback.
+            unhashable_handler = ast.ExceptHandler(
+                type=ast.Name(id="TypeError", ctx=ast.Load()),
+                name=None,
+                body=[
+                    ast.Assign(
+                        targets=[ast.Name(id="slot", ctx=ast.Store())],
+                        value=ast.Name(id="_MISSING_DEP_SLOT", ctx=ast.Load()),
+                    ),
+                ],
+            )
+            body.append(
+                ast.Try(
+                    body=[slot_lookup],
+                    handlers=[unhashable_handler],
+                    orelse=[],
+                    finalbody=[],
                 ),
             )
 
@@ -2093,12 +2110,7 @@ def _resolver_resolve_from_context(self: Any, key: Any) -> Any:
 
 def _resolver_is_registered_dependency(self: Any, dependency: Any) -> bool:
     runtime = type(self)._runtime
-    if dependency in runtime.dep_registered_keys:
-        return True
-    normalized_dependency = strip_non_component_annotation(dependency)
-    if normalized_dependency is dependency:
-        return False
-    return normalized_dependency in runtime.dep_registered_keys
+    return strip_non_component_annotation(dependency) in runtime.dep_registered_keys
 
 
 def _resolver_exit(
-- 
2.43.0


From d0c2db9fdf351c29ac0408af7c6a0b2b3ad60678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 15/31] fix: substitute TypeVars inside Provider and All
 markers of open generic dependencies

---
 src/diwire/_internal/open_generics.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 1661855..e6b6c5c 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -12,6 +12,8 @@ from typing import TYPE_CHECKING, Any, Literal, NoReturn, TypeVar, cast, get_arg
 from diwire._internal.injection import INJECT_RESOLVER_KWARG, INJECT_WRAPPER_MARKER
 from diwire._internal.lock_mode import LockMode
 from diwire._internal.markers import (
+    AllMarker,
+    ProviderMarker,
     is_async_provider_annotation,
     is_from_context_annotation,
     is_maybe_annotation,
@@ -156,6 +158,10 @@ def substitute_typevars(value: Any, *, mapping: Mapping[TypeVar, Any]) -> Any:
     """
     if isinstance(value, TypeVar):
         return mapping.get(value, value)
+    if isinstance(value, (ProviderMarker, AllMarker)):
+        return value._replace(
+            dependency_key=substitute_typevars(value.dependency_key, mapping=mapping),
+        )
 
     origin = get_origin(value)
     if origin is None:
-- 
2.43.0


From e40723effcd6f3089ea6025d48fbb026ac574d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:52 +0000
Subject: [PATCH 16/31] fix: a missing FromContext value never falls back to an
 open generic provider

---
 src/diwire/_internal/open_generics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index e6b6c5c..28fdade 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -371,6 +371,8 @@ class _OpenGenericResolver:  # pragma: no cover
             if is_async_provider_annotation(dependency):
                 return lambda: self.aresolve(inner_dependency)
             return lambda: self.resolve(inner_dependency)
+        if is_from_context_annotation(dependency):
+            return self._base_resolver.resolve(dependency)
         try:
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
@@ -402,6 +404,8 @@ class _OpenGenericResolver:  # pragma: no cover
             if is_async_provider_annotation(dependency):
                 return lambda: self.aresolve(inner_dependency)
             return lambda: self.resolve(inner_dependency)
+        if is_from_context_annotation(dependency):
+            return await self._base_resolver.aresolve(dependency)
         try:
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
-- 
2.43.0


From 667041fdd1ca55e5cf7b69c32f1670ac98043398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 17/31] fix: scope contracts account for the dependencies of
 open generic providers

---
 src/diwire/_internal/container.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index e57cedb..16ca1c1 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -49,6 +49,7 @@ from diwire._internal.open_generics import (
     OpenGenericRegistry,
     OpenGenericResolver,
     canonicalize_open_key,
+    substitute_typevars,
 )
 from diwire._internal.policies import DependencyRegistrationPolicy, MissingPolicy
 from diwire._internal.providers import (
@@ -2124,6 +2125,25 @@ class Container:
             open_match = self._open_generic_registry.find_best_match(dependency)
             if open_match is not None:
                 inferred_level = open_match.spec.scope.level
+                if dependency in in_progress:
+                    return inferred_level
+                in_progress.add(dependency)
+                for binding in open_match.spec.bindings:
+                    if binding.kind != "dependency":
+                        continue
+                    inferred_level = max(
+                        inferred_level,
+                        self._infer_dependency_scope_level(
+                            dependency=substitute_typevars(
+                                binding.template,
+                                mapping=open_match.typevar_map,
+                            ),
+                            cache=cache,
+                            in_progress=in_progress,
+                        ),
+                    )
+                in_progress.remove(dependency)
+                cache[dependency] = inferred_level
                 cache[original_dependency] = inferred_level
                 return inferred_level
             cache[original_dependency] = self._root_scope.level
-- 
2.43.0


From 3b2b08ebcc95e5d7e54575aa82aa08988d546202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 18/31] fix: context values do not add scope requirements to
 injected callables

---
 src/diwire/_internal/container.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 16ca1c1..1552275 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2061,9 +2061,7 @@ class Container:
         if known_level is not None:
             return known_level
         if is_maybe_annotation(dependency):
-            maybe_inner_dependency = strip_non_component_annotation(
-                strip_maybe_annotation(dependency)
-            )
+            maybe_inner_dependency = strip_maybe_annotation(dependency)
             inferred_level = self._infer_dependency_scope_level(
                 dependency=maybe_inner_dependency,
                 cache=cache,
@@ -2072,9 +2070,7 @@ class Container:
             cache[original_dependency] = inferred_level
             return inferred_level
         if is_provider_annotation(dependency):
-            provider_inner_dependency = strip_non_component_annotation(
-                strip_provider_annotation(dependency),
-            )
+            provider_inner_dependency = strip_provider_annotation(dependency)
             inferred_level = self._infer_dependency_scope_level(
                 dependency=provider_inner_dependency,
                 cache=cache,
@@ -2082,6 +2078,9 @@ class Container:
             )
             cache[original_dependency] = inferred_level
             return inferred_level
+        if is_from_context_annotation(dependency):
+            cache[original_dependency] = self._root_scope.level
+            return self._root_scope.level
         if is_all_annotation(dependency):
             if original_dependency in in_progress:
                 return self._root_scope.level
-- 
2.43.0


From 0897b3cedff2bb0c0aeeb63292e294da544564ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:15 +0000
Subject: [PATCH 19/31] fix: container with-blocks leave the resolver they
 entered and close() keeps bindings

---
 src/diwire/_internal/container.py | 59 ++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 1552275..4f2654b 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -6,6 +6,7 @@ import logging
 import threading
 from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapping
 from contextlib import contextmanager, suppress
+from contextvars import ContextVar
 from dataclasses import dataclass
 from types import TracebackType
 from typing import (
@@ -189,6 +190,11 @@ class Container:
         self._injected_callable_inspector = InjectedCallableInspector()
 
         self._root_resolver: ResolverProtocol | None = None
+        # Resolvers entered by container with-blocks of the running task or thread, innermost last.
+        self._entered_resolvers: ContextVar[tuple[ResolverProtocol, ...]] = ContextVar(
+            "diwire_container_entered_resolvers",
+            default=(),
+        )
         self._compile_lock = threading.RLock()
         self._graph_revision: int = 0
         self._registration_mutation_depth: int = 0
@@ -2848,7 +2854,9 @@ class Container:
     def __enter__(self) -> ResolverProtocol:
         """Enter the resolver context."""
         resolver = self.compile()
-        return resolver.__enter__()
+        entered = resolver.__enter__()
+        self._entered_resolvers.set((*self._entered_resolvers.get(), resolver))
+        return entered
 
     def __exit__(
         self,
@@ -2861,16 +2869,26 @@ class Container:
         Cleanup will happen ONLY if the resolver created resources that need to be cleaned up.
         Like context managers or generators.
         """
-        if self._root_resolver is None:
+        entered, current = self._pop_entered_resolver(), self._root_resolver
+        if entered is None:
+            entered = current
+        if entered is None:
             msg = "Container context exit called without a matching enter."
             raise RuntimeError(msg)
 
-        return self._root_resolver.__exit__(exc_type, exc_value, traceback)
+        try:
+            # The graph was recompiled inside the block: release the new root as well.
+            if current is not None and current is not entered:
+                current.close(exc_type, exc_value, traceback)
+        finally:
+            entered.__exit__(exc_type, exc_value, traceback)
 
-    def __aenter__(self) -> ResolverProtocol:
+    async def __aenter__(self) -> ResolverProtocol:
         """Asynchronously enter the resolver context."""
         resolver = self.compile()
-        return resolver.__aenter__()
+        entered = await resolver.__aenter__()
+        self._entered_resolvers.set((*self._entered_resolvers.get(), resolver))
+        return entered
 
     async def __aexit__(
         self,
@@ -2883,11 +2901,26 @@ class Container:
         Cleanup will happen ONLY if the resolver created resources that need to be cleaned up.
         Like context managers or generators.
         """
-        if self._root_resolver is None:
+        entered, current = self._pop_entered_resolver(), self._root_resolver
+        if entered is None:
+            entered = current
+        if entered is None:
             msg = "Container async context exit called without a matching enter."
             raise RuntimeError(msg)
 
-        return await self._root_resolver.__aexit__(exc_type, exc_value, traceback)
+        try:
+            # The graph was recompiled inside the block: release the new root as well.
+            if current is not None and current is not entered:
+                await current.aclose(exc_type, exc_value, traceback)
+        finally:
+            await entered.__aexit__(exc_type, exc_value, traceback)
+
+    def _pop_entered_resolver(self) -> ResolverProtocol | None:
+        entered = self._entered_resolvers.get()
+        if not entered:
+            return None
+        self._entered_resolvers.set(entered[:-1])
+        return entered[-1]
 
     def close(
         self,
@@ -2911,7 +2944,11 @@ class Container:
             cleanup.
 
         """
-        return self.__exit__(exc_type, exc_value, traceback)
+        if self._root_resolver is None:
+            msg = "Container context exit called without a matching enter."
+            raise RuntimeError(msg)
+
+        return self._root_resolver.close(exc_type, exc_value, traceback)
 
     async def aclose(
         self,
@@ -2934,7 +2971,11 @@ class Container:
             owning a long-lived root resolver lifecycle explicitly.
 
         """
-        return await self.__aexit__(exc_type, exc_value, traceback)
+        if self._root_resolver is None:
+            msg = "Container async context exit called without a matching enter."
+            raise RuntimeError(msg)
+
+        return await self._root_resolver.aclose(exc_type, exc_value, traceback)
 
     # endregion Resolution and Scope Management
 
-- 
2.43.0


From 1b4b3da785c838f3afe6ac18157a8018570b7d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:59 +0000
Subject: [PATCH 20/31] fix: injected positional-only parameters after an
 omitted default

---
 src/diwire/_internal/container.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 4f2654b..b48c70f 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2254,8 +2254,17 @@ class Container:
                     continue
                 value = None
             bound_arguments.arguments[context_parameter.name] = value
+        self._fill_positional_only_defaults(bound_arguments=bound_arguments)
         return bound_arguments
 
+    def _fill_positional_only_defaults(self, *, bound_arguments: inspect.BoundArguments) -> None:
+        """Make positional-only values that follow an omitted default reachable by position."""
+        for parameter in bound_arguments.signature.parameters.values():
+            if parameter.kind is not inspect.Parameter.POSITIONAL_ONLY:
+                return
+            if parameter.default is not inspect.Parameter.empty:
+                bound_arguments.arguments.setdefault(parameter.name, parameter.default)
+
     async def _resolve_async_injected_arguments(
         self,
         *,
@@ -2315,6 +2324,7 @@ class Container:
                     continue
                 value = None
             bound_arguments.arguments[context_parameter.name] = value
+        self._fill_positional_only_defaults(bound_arguments=bound_arguments)
         return bound_arguments
 
     def _is_registered_in_resolver(
-- 
2.43.0


From f5a8feaca1567b65874500b3b8d049894e003de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 21/31] fix: report circular open generic dependencies instead
 of recursing or deadlocking

---
 src/diwire/_internal/open_generics.py | 70 +++++++++++++++++++++++++++
 1 file changed, 70 insertions(+)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 28fdade..f96aaf4 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -37,6 +37,7 @@ from diwire.exceptions import (
     DIWireAsyncDependencyInSyncContextError,
     DIWireDependencyNotRegisteredError,
     DIWireInvalidGenericTypeArgumentError,
+    DIWireInvalidProviderSpecError,
     DIWireScopeMismatchError,
 )
 
@@ -48,6 +49,7 @@ OpenProviderKind = Literal["concrete_type", "factory", "generator", "context_man
 OpenBindingKind = Literal["dependency", "generic_argument", "generic_argument_type"]
 _MISSING_CACHE = object()
 _MAYBE_UNHANDLED = object()
+_MAX_OPEN_DEPENDENCY_CHAIN = 100
 
 
 @dataclass(frozen=True, slots=True)
@@ -361,6 +363,7 @@ class _OpenGenericResolver:  # pragma: no cover
             getattr(base_resolver, "_cleanup_enabled", True),
         )
         self._owned_scope_wrappers: tuple[_OpenGenericResolver, ...] = ()
+        self._acyclic_dependencies: set[Any] = set()
 
     def resolve(self, dependency: Any) -> Any:
         maybe_value = self._resolve_maybe_sync(dependency=dependency)
@@ -691,6 +694,7 @@ class _OpenGenericResolver:  # pragma: no cover
             if cached_value is not _MISSING_CACHE:
                 return cached_value
 
+            self._ensure_acyclic(dependency=dependency, match=match)
             if self._uses_thread_lock(match.spec):
                 lock = cache_owner.get_thread_lock(dependency)
                 with lock:
@@ -705,6 +709,7 @@ class _OpenGenericResolver:  # pragma: no cover
             cache_owner.set_cached(dependency=dependency, value=value)
             return value
 
+        self._ensure_acyclic(dependency=dependency, match=match)
         return execution_owner.build_open_value_sync(match=match)
 
     async def _resolve_open_match_async(
@@ -720,6 +725,7 @@ class _OpenGenericResolver:  # pragma: no cover
             if cached_value is not _MISSING_CACHE:
                 return cached_value
 
+            self._ensure_acyclic(dependency=dependency, match=match)
             if self._uses_async_lock(match.spec):
                 lock = cache_owner.get_async_lock(dependency)
                 async with lock:
@@ -734,8 +740,72 @@ class _OpenGenericResolver:  # pragma: no cover
             cache_owner.set_cached(dependency=dependency, value=value)
             return value
 
+        self._ensure_acyclic(dependency=dependency, match=match)
         return await execution_owner.build_open_value_async(match=match)
 
+    def _ensure_acyclic(self, *, dependency: Any, match: _OpenGenericMatch) -> None:
+        if dependency not in self._root_wrapper._acyclic_dependencies:
+            self._root_wrapper._visit_open_dependency(
+                dependency=dependency,
+                match=match,
+                chain=(),
+            )
+
+    def _visit_open_dependency(
+        self,
+        *,
+        dependency: Any,
+        match: _OpenGenericMatch,
+        chain: tuple[Any, ...],
+    ) -> None:
+        if dependency in self._acyclic_dependencies:
+            return
+        if dependency in chain or len(chain) >= _MAX_OPEN_DEPENDENCY_CHAIN:
+            formatted_chain = " -> ".join(repr(item) for item in (*chain[:5], dependency))
+            msg = (
+                "Circular dependency detected while resolving open generic "
+                f"{(*chain, dependency)[0]!r}: {formatted_chain}."
+            )
+            raise DIWireInvalidProviderSpecError(msg)
+
+        for binding in match.spec.bindings:
+            if binding.kind != "dependency":
+                continue
+            inner_match = self._find_open_dependency_match(
+                substitute_typevars(binding.template, mapping=match.typevar_map),
+            )
+            if inner_match is not None:
+                inner_dependency, inner_open_match = inner_match
+                self._visit_open_dependency(
+                    dependency=inner_dependency,
+                    match=inner_open_match,
+                    chain=(*chain, dependency),
+                )
+        self._acyclic_dependencies.add(dependency)
+
+    def _find_open_dependency_match(
+        self,
+        dependency: Any,
+    ) -> tuple[Any, _OpenGenericMatch] | None:
+        """Return the open-generic match that building ``dependency`` immediately needs."""
+        if is_maybe_annotation(dependency):
+            dependency = strip_maybe_annotation(dependency)
+        if is_provider_annotation(dependency) or is_from_context_annotation(dependency):
+            return None
+
+        base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
+        candidates = (dependency, strip_non_component_annotation(dependency))
+        if callable(base_registered_checker) and any(map(base_registered_checker, candidates)):
+            return None
+        for candidate in candidates:
+            try:
+                match = self._registry.find_best_match(candidate)
+            except DIWireInvalidGenericTypeArgumentError:
+                return None
+            if match is not None:
+                return candidate, match
+        return None
+
     @property
     def scope_level(self) -> int:
         return self._scope_level
-- 
2.43.0


From cddecba6cb8ac544198c48d854b90014d31a1277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:23 +0000
Subject: [PATCH 22/31] fix: a registered closed generic that fails to build is
 not replaced by an open registration

---
 src/diwire/_internal/open_generics.py | 31 ++++++++++++++++-----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index f96aaf4..5f4969f 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -379,6 +379,8 @@ class _OpenGenericResolver:  # pragma: no cover
         try:
             return self._base_resolver.resolve(dependency)
         except DIWireDependencyNotRegisteredError:
+            if self._is_base_registered_dependency(dependency):
+                raise
             normalized_dependency = strip_non_component_annotation(dependency)
             if normalized_dependency is not dependency:
                 try:
@@ -412,6 +414,8 @@ class _OpenGenericResolver:  # pragma: no cover
         try:
             return await self._base_resolver.aresolve(dependency)
         except DIWireDependencyNotRegisteredError:
+            if self._is_base_registered_dependency(dependency):
+                raise
             normalized_dependency = strip_non_component_annotation(dependency)
             if normalized_dependency is not dependency:
                 try:
@@ -431,16 +435,21 @@ class _OpenGenericResolver:  # pragma: no cover
                 match=open_match,
             )
 
-    def _is_registered_dependency(self, dependency: Any) -> bool:
+    def _is_base_registered_dependency(self, dependency: Any) -> bool:
         base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
+        if not callable(base_registered_checker):
+            return False
+        if base_registered_checker(dependency):
+            return True
         normalized_dependency = strip_non_component_annotation(dependency)
-        if callable(base_registered_checker):
-            if base_registered_checker(dependency):
-                return True
-            if normalized_dependency is not dependency and base_registered_checker(
-                normalized_dependency
-            ):
-                return True
+        return normalized_dependency is not dependency and bool(
+            base_registered_checker(normalized_dependency),
+        )
+
+    def _is_registered_dependency(self, dependency: Any) -> bool:
+        normalized_dependency = strip_non_component_annotation(dependency)
+        if self._is_base_registered_dependency(dependency):
+            return True
         if self._registry.find_best_match(dependency) is not None:
             return True
         if normalized_dependency is dependency:
@@ -793,11 +802,9 @@ class _OpenGenericResolver:  # pragma: no cover
         if is_provider_annotation(dependency) or is_from_context_annotation(dependency):
             return None
 
-        base_registered_checker = getattr(self._base_resolver, "_is_registered_dependency", None)
-        candidates = (dependency, strip_non_component_annotation(dependency))
-        if callable(base_registered_checker) and any(map(base_registered_checker, candidates)):
+        if self._is_base_registered_dependency(dependency):
             return None
-        for candidate in candidates:
+        for candidate in (dependency, strip_non_component_annotation(dependency)):
             try:
                 match = self._registry.find_best_match(candidate)
             except DIWireInvalidGenericTypeArgumentError:
-- 
2.43.0


From 63ac389bc2bf5a1d20e9a47902f627b808c6ca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:23 +0000
Subject: [PATCH 23/31] fix: errors raised while building a registered Maybe
 dependency propagate; Maybe[All[...]] is the tuple

---
 src/diwire/_internal/container.py             |  2 +
 .../_internal/resolvers/assembly/compiler.py  | 41 +++++++++++++++----
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index b48c70f..88cafd2 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -2341,6 +2341,8 @@ class Container:
             if normalized_dependency is dependency:
                 return False
             return bool(is_registered_dependency(normalized_dependency))
+        if is_all_annotation(dependency):
+            return True
         if self._providers_registrations.find_by_type(dependency) is not None:
             return True
         if (
diff --git a/src/diwire/_internal/resolvers/assembly/compiler.py b/src/diwire/_internal/resolvers/assembly/compiler.py
index 7743dd1..fded661 100644
--- a/src/diwire/_internal/resolvers/assembly/compiler.py
+++ b/src/diwire/_internal/resolvers/assembly/compiler.py
@@ -300,6 +300,8 @@ class ResolversAssemblyCompiler:
             "_resolver_aexit": _resolver_aexit,
             "_resolve_dispatch_fallback_sync": _resolve_dispatch_fallback_sync,
             "_resolve_dispatch_fallback_async": _resolve_dispatch_fallback_async,
+            "_resolve_unmatched_dependency_sync": _resolve_unmatched_dependency_sync,
+            "_resolve_unmatched_dependency_async": _resolve_unmatched_dependency_async,
             "_dep_eq_slot_by_key": runtime.dep_eq_slot_by_key,
             "DIWireAsyncDependencyInSyncContextError": DIWireAsyncDependencyInSyncContextError,
             "DIWireDependencyNotRegisteredError": DIWireDependencyNotRegisteredError,
@@ -1144,7 +1146,9 @@ class ResolversAssemblyCompiler:
             )
 
         fallback_function = (
-            "_resolve_dispatch_fallback_async" if is_async else "_resolve_dispatch_fallback_sync"
+            "_resolve_unmatched_dependency_async"
+            if is_async
+            else "_resolve_unmatched_dependency_sync"
         )
         fallback_call = ast.Call(
             func=ast.Name(id=fallback_function, ctx=ast.Load()),
@@ -2109,6 +2113,9 @@ def _resolver_resolve_from_context(self: Any, key: Any) -> Any:
 
 
 def _resolver_is_registered_dependency(self: Any, dependency: Any) -> bool:
+    if is_all_annotation(dependency):
+        # All[...] always has a value: the (possibly empty) tuple of what is registered.
+        return True
     runtime = type(self)._runtime
     return strip_non_component_annotation(dependency) in runtime.dep_registered_keys
 
@@ -2181,6 +2188,28 @@ def _resolver_aexit(
     return _run()
 
 
+def _is_registered_maybe_dependency(self: Any, dependency: Any) -> bool:
+    if not is_maybe_annotation(dependency):
+        return False
+    inner = strip_maybe_annotation(dependency)
+    if is_provider_annotation(inner) or is_from_context_annotation(inner):
+        return False
+    return bool(self._is_registered_dependency(inner))
+
+
+def _resolve_unmatched_dependency_sync(self: Any, dependency: Any) -> Any:
+    # Errors raised while building a registered dependency do not make it missing.
+    if _is_registered_maybe_dependency(self, dependency):
+        return self.resolve(strip_maybe_annotation(dependency))
+    return _resolve_dispatch_fallback_sync(self, dependency)
+
+
+async def _resolve_unmatched_dependency_async(self: Any, dependency: Any) -> Any:
+    if _is_registered_maybe_dependency(self, dependency):
+        return await self.aresolve(strip_maybe_annotation(dependency))
+    return await _resolve_dispatch_fallback_async(self, dependency)
+
+
 def _resolve_dispatch_fallback_sync(self: Any, dependency: Any) -> Any:
     if is_maybe_annotation(dependency):
         inner = strip_maybe_annotation(dependency)
@@ -2234,10 +2263,7 @@ def _resolve_dispatch_fallback_sync(self: Any, dependency: Any) -> Any:
 
     normalized_dependency = strip_non_component_annotation(dependency)
     if normalized_dependency is not dependency:
-        try:
-            return self.resolve(normalized_dependency)
-        except DIWireDependencyNotRegisteredError:
-            pass
+        return self.resolve(normalized_dependency)
 
     msg = f"Dependency {dependency!r} is not registered."
     raise DIWireDependencyNotRegisteredError(msg)
@@ -2297,10 +2323,7 @@ def _resolve_dispatch_fallback_async(self: Any, dependency: Any) -> Awaitable[An
 
         normalized_dependency = strip_non_component_annotation(dependency)
         if normalized_dependency is not dependency:
-            try:
-                return await self.aresolve(normalized_dependency)
-            except DIWireDependencyNotRegisteredError:
-                pass
+            return await self.aresolve(normalized_dependency)
 
         msg = f"Dependency {dependency!r} is not registered."
         raise DIWireDependencyNotRegisteredError(msg)
-- 
2.43.0


From db584be12aea21368d6442b7c158636c2ce30a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:28 +0000
Subject: [PATCH 24/31] fix: a transient open generic resolves dependencies of
 deeper scopes like an ordinary provider

---
 src/diwire/_internal/open_generics.py | 85 ++++++++++++++++++++++-----
 1 file changed, 71 insertions(+), 14 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 5f4969f..8d7d268 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -87,6 +87,13 @@ class _OpenGenericMatch:
     specificity: int
 
 
+def _is_bound_to_provider_scope(dependency: Any) -> bool:
+    """Return whether a dependency is looked up from the scope of the provider that needs it."""
+    if is_maybe_annotation(dependency):
+        dependency = strip_maybe_annotation(dependency)
+    return is_provider_annotation(dependency) or is_from_context_annotation(dependency)
+
+
 def canonicalize_open_key(dependency: Any) -> Any | None:
     """Normalize a dependency key into an open-generic registration key.
 
@@ -719,7 +726,7 @@ class _OpenGenericResolver:  # pragma: no cover
             return value
 
         self._ensure_acyclic(dependency=dependency, match=match)
-        return execution_owner.build_open_value_sync(match=match)
+        return execution_owner.build_open_value_sync(match=match, argument_resolver=self)
 
     async def _resolve_open_match_async(
         self,
@@ -750,7 +757,7 @@ class _OpenGenericResolver:  # pragma: no cover
             return value
 
         self._ensure_acyclic(dependency=dependency, match=match)
-        return await execution_owner.build_open_value_async(match=match)
+        return await execution_owner.build_open_value_async(match=match, argument_resolver=self)
 
     def _ensure_acyclic(self, *, dependency: Any, match: _OpenGenericMatch) -> None:
         if dependency not in self._root_wrapper._acyclic_dependencies:
@@ -833,14 +840,38 @@ class _OpenGenericResolver:  # pragma: no cover
     def get_async_lock(self, dependency: Any) -> asyncio.Lock:
         return self._async_locks.setdefault(dependency, asyncio.Lock())
 
-    def build_open_value_sync(self, *, match: _OpenGenericMatch) -> Any:
-        return self._build_open_value_sync(match=match)
+    def build_open_value_sync(
+        self,
+        *,
+        match: _OpenGenericMatch,
+        argument_resolver: _OpenGenericResolver | None = None,
+    ) -> Any:
+        return self._build_open_value_sync(
+            match=match,
+            argument_resolver=self if argument_resolver is None else argument_resolver,
+        )
 
-    async def build_open_value_async(self, *, match: _OpenGenericMatch) -> Any:
-        return await self._build_open_value_async(match=match)
+    async def build_open_value_async(
+        self,
+        *,
+        match: _OpenGenericMatch,
+        argument_resolver: _OpenGenericResolver | None = None,
+    ) -> Any:
+        return await self._build_open_value_async(
+            match=match,
+            argument_resolver=self if argument_resolver is None else argument_resolver,
+        )
 
-    def _build_open_value_sync(self, *, match: _OpenGenericMatch) -> Any:
-        call_arguments = self._resolve_call_arguments_sync(match=match)
+    def _build_open_value_sync(
+        self,
+        *,
+        match: _OpenGenericMatch,
+        argument_resolver: _OpenGenericResolver,
+    ) -> Any:
+        call_arguments = self._resolve_call_arguments_sync(
+            match=match,
+            argument_resolver=argument_resolver,
+        )
         if match.spec.provider_kind == "concrete_type":
             concrete_type = _as_provider_type(match.spec.provider)
             return concrete_type(*call_arguments.args, **call_arguments.kwargs)
@@ -856,8 +887,16 @@ class _OpenGenericResolver:  # pragma: no cover
             call_arguments=call_arguments,
         )
 
-    async def _build_open_value_async(self, *, match: _OpenGenericMatch) -> Any:
-        call_arguments = await self._resolve_call_arguments_async(match=match)
+    async def _build_open_value_async(
+        self,
+        *,
+        match: _OpenGenericMatch,
+        argument_resolver: _OpenGenericResolver,
+    ) -> Any:
+        call_arguments = await self._resolve_call_arguments_async(
+            match=match,
+            argument_resolver=argument_resolver,
+        )
         if match.spec.provider_kind == "concrete_type":
             concrete_type = _as_provider_type(match.spec.provider)
             return concrete_type(*call_arguments.args, **call_arguments.kwargs)
@@ -881,12 +920,18 @@ class _OpenGenericResolver:  # pragma: no cover
             provider_is_async=match.spec.is_async,
         )
 
-    def _resolve_call_arguments_sync(self, *, match: _OpenGenericMatch) -> _CallArguments:
+    def _resolve_call_arguments_sync(
+        self,
+        *,
+        match: _OpenGenericMatch,
+        argument_resolver: _OpenGenericResolver,
+    ) -> _CallArguments:
         values: list[tuple[ProviderDependency, Any]] = []
         for binding in match.spec.bindings:
             value = self._resolve_binding_value_sync(
                 binding=binding,
                 typevar_map=match.typevar_map,
+                argument_resolver=argument_resolver,
             )
             values.append((binding.dependency, value))
         call_arguments = _bind_call_arguments(provider=match.spec.provider, values=values)
@@ -894,12 +939,18 @@ class _OpenGenericResolver:  # pragma: no cover
             call_arguments.kwargs[INJECT_RESOLVER_KWARG] = self
         return call_arguments
 
-    async def _resolve_call_arguments_async(self, *, match: _OpenGenericMatch) -> _CallArguments:
+    async def _resolve_call_arguments_async(
+        self,
+        *,
+        match: _OpenGenericMatch,
+        argument_resolver: _OpenGenericResolver,
+    ) -> _CallArguments:
         values: list[tuple[ProviderDependency, Any]] = []
         for binding in match.spec.bindings:
             value = await self._resolve_binding_value_async(
                 binding=binding,
                 typevar_map=match.typevar_map,
+                argument_resolver=argument_resolver,
             )
             values.append((binding.dependency, value))
         call_arguments = _bind_call_arguments(provider=match.spec.provider, values=values)
@@ -912,6 +963,7 @@ class _OpenGenericResolver:  # pragma: no cover
         *,
         binding: _OpenGenericBindingPlan,
         typevar_map: Mapping[TypeVar, Any],
+        argument_resolver: _OpenGenericResolver,
     ) -> Any:
         if binding.kind in {"generic_argument", "generic_argument_type"}:
             if binding.typevar is None:
@@ -932,13 +984,16 @@ class _OpenGenericResolver:  # pragma: no cover
         )
         if missing_value is not _MAYBE_UNHANDLED:
             return missing_value
-        return self.resolve(resolved_dependency)
+        if _is_bound_to_provider_scope(resolved_dependency):
+            return self.resolve(resolved_dependency)
+        return argument_resolver.resolve(resolved_dependency)
 
     async def _resolve_binding_value_async(
         self,
         *,
         binding: _OpenGenericBindingPlan,
         typevar_map: Mapping[TypeVar, Any],
+        argument_resolver: _OpenGenericResolver,
     ) -> Any:
         if binding.kind in {"generic_argument", "generic_argument_type"}:
             if binding.typevar is None:
@@ -959,7 +1014,9 @@ class _OpenGenericResolver:  # pragma: no cover
         )
         if missing_value is not _MAYBE_UNHANDLED:
             return missing_value
-        return await self.aresolve(resolved_dependency)
+        if _is_bound_to_provider_scope(resolved_dependency):
+            return await self.aresolve(resolved_dependency)
+        return await argument_resolver.aresolve(resolved_dependency)
 
     def _build_generator_sync(
         self,
-- 
2.43.0


From 9979b023f596dab202104ba19171b1c666bde1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:13 +0000
Subject: [PATCH 25/31] fix: a key autoregistered under a bound resolver keeps
 resolving after the first call

---
 src/diwire/_internal/container.py | 46 ++++++++++++++++++++++++++++---
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 88cafd2..2bfe183 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1860,6 +1860,20 @@ class Container:
             dependency_registration_policy=effective_dependency_policy,
         )
 
+    def _is_registered_after_compilation(
+        self,
+        *,
+        resolver: ResolverProtocol,
+        dependency: Any,
+    ) -> bool:
+        """Return whether a key was registered after ``resolver`` had been compiled."""
+        dependency_key = self._normalize_dependency_identity_key(
+            self._unwrap_provider_dependency_key(dependency),
+        )
+        if self._providers_registrations.find_by_type(dependency_key) is None:
+            return False
+        return not self._is_registered_in_resolver(resolver=resolver, dependency=dependency_key)
+
     def _inject_callable(
         self,
         *,
@@ -2718,7 +2732,13 @@ class Container:
                 provider_inner_dependency,
                 on_missing=resolved_on_missing,
             )
-            if self._graph_revision != graph_revision_before:
+            if (
+                self._graph_revision != graph_revision_before
+                or self._is_registered_after_compilation(
+                    resolver=resolver,
+                    dependency=provider_inner_dependency,
+                )
+            ):
                 resolver = self.compile()
             return resolver.resolve(dependency)
 
@@ -2730,7 +2750,13 @@ class Container:
                 dependency,
                 on_missing=resolved_on_missing,
             )
-            if self._graph_revision == graph_revision_before:
+            if (
+                self._graph_revision == graph_revision_before
+                and not self._is_registered_after_compilation(
+                    resolver=resolver,
+                    dependency=dependency,
+                )
+            ):
                 raise
             resolver = self.compile()
             return resolver.resolve(dependency)
@@ -2808,7 +2834,13 @@ class Container:
                 provider_inner_dependency,
                 on_missing=resolved_on_missing,
             )
-            if self._graph_revision != graph_revision_before:
+            if (
+                self._graph_revision != graph_revision_before
+                or self._is_registered_after_compilation(
+                    resolver=resolver,
+                    dependency=provider_inner_dependency,
+                )
+            ):
                 resolver = self.compile()
             return await resolver.aresolve(dependency)
 
@@ -2820,7 +2852,13 @@ class Container:
                 dependency,
                 on_missing=resolved_on_missing,
             )
-            if self._graph_revision == graph_revision_before:
+            if (
+                self._graph_revision == graph_revision_before
+                and not self._is_registered_after_compilation(
+                    resolver=resolver,
+                    dependency=dependency,
+                )
+            ):
                 raise
             resolver = self.compile()
             return await resolver.aresolve(dependency)
-- 
2.43.0


From 32458e654c4b915428aca122d832b6135058e62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:14 +0000
Subject: [PATCH 26/31] fix: on_missing is accepted after a strict container
 binds its entrypoints

---
 src/diwire/_internal/container.py | 33 +++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index 2bfe183..f28a13f 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -8,7 +8,7 @@ from collections.abc import AsyncGenerator, Awaitable, Callable, Generator, Mapp
 from contextlib import contextmanager, suppress
 from contextvars import ContextVar
 from dataclasses import dataclass
-from types import TracebackType
+from types import MethodType, TracebackType
 from typing import (
     Annotated,
     Any,
@@ -2638,8 +2638,37 @@ class Container:
         target: ResolverProtocol,
     ) -> None:
         """Bind selected container entrypoints directly to resolver-bound methods."""
+        container_resolve = self._container_entrypoints["resolve"]
+        container_aresolve = self._container_entrypoints["aresolve"]
+
+        def _resolve(
+            resolver: ResolverProtocol,
+            dependency: Any,
+            *,
+            on_missing: MissingPolicy | Literal["from_container"] = "from_container",
+        ) -> Any:
+            if on_missing == "from_container":
+                return resolver.resolve(dependency)
+            return container_resolve(dependency, on_missing=on_missing)
+
+        async def _aresolve(
+            resolver: ResolverProtocol,
+            dependency: Any,
+            *,
+            on_missing: MissingPolicy | Literal["from_container"] = "from_container",
+        ) -> Any:
+            if on_missing == "from_container":
+                return await resolver.aresolve(dependency)
+            return await container_aresolve(dependency, on_missing=on_missing)
+
+        # The resolver does not know the per-call policy of the container methods.
+        entrypoints: dict[str, Callable[..., Any]] = {
+            "resolve": MethodType(_resolve, target),
+            "aresolve": MethodType(_aresolve, target),
+        }
         for method_name in self._ENTRYPOINT_METHOD_NAMES:
-            setattr(self, method_name, getattr(target, method_name))
+            method = entrypoints.get(method_name) or getattr(target, method_name)
+            setattr(self, method_name, method)
 
     def _restore_container_entrypoints(self) -> None:
         """Restore original container-bound entrypoint methods captured at init."""
-- 
2.43.0


From 0871a09501e8a5c52d436903641a7b9e650a189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 27/31] fix: a class without an inspectable signature is an
 inference error, not a raw ValueError

---
 src/diwire/_internal/providers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/providers.py b/src/diwire/_internal/providers.py
index c700121..5e59bae 100644
--- a/src/diwire/_internal/providers.py
+++ b/src/diwire/_internal/providers.py
@@ -546,7 +546,13 @@ class ProviderDependenciesExtractor:
         provider: Callable[..., Any],
         skip_first_parameter: bool,
     ) -> tuple[Parameter, ...]:
-        parameters = tuple(inspect.signature(provider).parameters.values())
+        try:
+            parameters = tuple(inspect.signature(provider).parameters.values())
+        except (TypeError, ValueError) as error:
+            msg = (
+                f"Unable to infer the parameters of provider '{self._provider_name(provider)}': {error}"
+            )
+            raise DIWireProviderDependencyInferenceError(msg) from error
         if (
             skip_first_parameter
             and parameters
-- 
2.43.0


From 3cc9dfd007c0930648ec9b5d2e5fc4e5eaa285b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:01 +0000
Subject: [PATCH 28/31] fix: concurrent tasks build a scoped open generic with
 async dependencies once

---
 src/diwire/_internal/open_generics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/diwire/_internal/open_generics.py b/src/diwire/_internal/open_generics.py
index 8d7d268..8e63f73 100644
--- a/src/diwire/_internal/open_generics.py
+++ b/src/diwire/_internal/open_generics.py
@@ -1149,8 +1149,7 @@ class _OpenGenericResolver:  # pragma: no cover
         return self._effective_lock_mode(spec) is LockMode.THREAD
 
     def _uses_async_lock(self, spec: _OpenGenericSpec) -> bool:
-        if not spec.requires_async:
-            return False
+        # Dependencies registered after the spec can make any build suspend.
         return self._effective_lock_mode(spec) is LockMode.ASYNC
 
     def _effective_lock_mode(self, spec: _OpenGenericSpec) -> LockMode:
-- 
2.43.0


From bedb68069daa5ab698d8af651402171b1ee62086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:37 +0000
Subject: [PATCH 29/31] fix: on-demand registrations of concurrent threads do
 not interleave

---
 src/diwire/_internal/container.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/diwire/_internal/container.py b/src/diwire/_internal/container.py
index f28a13f..106f5f8 100644
--- a/src/diwire/_internal/container.py
+++ b/src/diwire/_internal/container.py
@@ -1853,12 +1853,16 @@ class Container:
             else DependencyRegistrationPolicy.IGNORE
         )
 
-        self._autoregister_dependency(
-            dependency=dependency_key,
-            scope=self._root_scope,
-            lifetime=self._default_lifetime,
-            dependency_registration_policy=effective_dependency_policy,
-        )
+        with self._compile_lock:
+            # Another thread may have registered it in the meantime.
+            if self._providers_registrations.find_by_type(dependency_key):
+                return
+            self._autoregister_dependency(
+                dependency=dependency_key,
+                scope=self._root_scope,
+                lifetime=self._default_lifetime,
+                dependency_registration_policy=effective_dependency_policy,
+            )
 
     def _is_registered_after_compilation(
         self,
@@ -2582,6 +2586,12 @@ class Container:
 
     @contextmanager
     def _registration_mutation(self) -> Generator[None, None, None]:
+        # Registrations made while resolving must not interleave with a compilation or each other.
+        with self._compile_lock, self._locked_registration_mutation():
+            yield
+
+    @contextmanager
+    def _locked_registration_mutation(self) -> Generator[None, None, None]:
         if self._registration_mutation_depth == 0:
             self._registration_mutation_snapshot = _ContainerGraphSnapshot(
                 providers_registrations=self._providers_registrations.snapshot(),
-- 
2.43.0


From 56221f6e7cc40a72afbe94a074adaf2a653608be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:26 +0000
Subject: [PATCH 30/31] fix: the pytest plugin injects from the test's own
 container

---
 src/diwire/_internal/integrations/pytest_plugin.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/diwire/_internal/integrations/pytest_plugin.py b/src/diwire/_internal/integrations/pytest_plugin.py
index 12a5c35..9b141bd 100644
--- a/src/diwire/_internal/integrations/pytest_plugin.py
+++ b/src/diwire/_internal/integrations/pytest_plugin.py
@@ -14,7 +14,7 @@ from diwire._internal.injection import (
     InjectedCallableInspector,
     InjectedParameter,
 )
-from diwire._internal.resolver_context import resolver_context
+from diwire._internal.resolver_context import ResolverContext
 
 _DIWIRE_CONTAINER_ATTR = "_diwire_container"
 _DIWIRE_INJECTED_PARAMETERS_ATTR = "__diwire_pytest_injected_parameters__"
@@ -88,7 +88,7 @@ def pytest_pycollect_makeitem(
 def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
     """Wrap test function execution to resolve ``Injected[...]`` parameters.
 
-    The wrapper swaps the callable with ``resolver_context.inject(original_callable)``
+    The wrapper swaps the callable with an injected one bound to the test's container
     for the duration of the test call and executes with an explicit resolver
     kwarg. If no container state is attached to the node, this hook is a no-op.
 
@@ -133,7 +133,10 @@ def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
         original_callable_as_any.__signature__ = original_signature
 
     try:
-        injected_callable = resolver_context.inject(original_callable)
+        # The container created last may not be the test's one.
+        test_resolver_context = ResolverContext()
+        test_resolver_context.set_fallback_container(container)
+        injected_callable = test_resolver_context.inject(original_callable)
         resolver = container.compile()
         if inspect.iscoroutinefunction(injected_callable):
 
-- 
2.43.0


From d9fb3ef6c931c7e565d86af474aa79398acce8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:26 +0000
Subject: [PATCH 31/31] fix: Injected parameters of test methods in the pytest
 plugin

---
 src/diwire/_internal/integrations/pytest_plugin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diwire/_internal/integrations/pytest_plugin.py b/src/diwire/_internal/integrations/pytest_plugin.py
index 9b141bd..dfacaa8 100644
--- a/src/diwire/_internal/integrations/pytest_plugin.py
+++ b/src/diwire/_internal/integrations/pytest_plugin.py
@@ -67,6 +67,8 @@ def pytest_pycollect_makeitem(
         ``None`` to continue default collection flow.
 
     """
+    if isinstance(obj, (staticmethod, classmethod)):
+        obj = obj.__func__
     if not callable(obj):
         return None
     if not collector.istestfunction(obj, name):
@@ -104,7 +106,11 @@ def pytest_pyfunc_call(pyfuncitem: pytest.Function) -> Iterator[None]:
 
     """
     original_callable = cast("Callable[..., Any]", pyfuncitem.obj)
-    original_callable_as_any = cast("Any", original_callable)
+    # Signature overrides live on the function: bound test methods reject attributes.
+    original_callable_as_any = cast(
+        "Any",
+        getattr(original_callable, "__func__", original_callable),
+    )
     injected_parameters = cast(
         "tuple[InjectedParameter, ...] | None",
         getattr(original_callable_as_any, _DIWIRE_INJECTED_PARAMETERS_ATTR, None),
-- 
2.43.0

