"""Writes properties.jsonl (kept as code only for readable line lengths)."""
import json, pathlib
SRC = "src/diwire/_internal/"
C, P, OG, CT, RC, INJ, MK, PR, SC = (SRC + "resolvers/assembly/compiler.py", SRC + "resolvers/assembly/planner.py",
    SRC + "open_generics.py", SRC + "container.py", SRC + "resolver_context.py", SRC + "injection.py",
    SRC + "markers.py", SRC + "providers.py", SRC + "scope.py")
out = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    out.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
        "anchors": {"files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": None}})

prop("C01", "A cached value is built once per owning scope; a transient value every time",
 "Between two registrations, every resolution of a SCOPED key inside one open instance of the scope that owns it - direct, as a dependency of another provider, through a nested scope handle, through a Provider handle, with resolve() or aresolve() - returns the identical object, and its provider runs at most once there. A TRANSIENT key runs its provider once per resolution, and a key registered with add_instance always yields that instance. This holds for every value a provider may return, including None, falsy values and values whose equality is overloaded, and different scope instances never share a value owned by a deeper scope than the root.",
 ["configurations", "histories", "inputs"],
 "every provider kind, lifetime, owner scope, lock mode, returned value and finite history of resolve/aresolve/enter-scope operations",
 "Tests sample a few provider kinds and orders; the generated resolvers specialise code per kind, scope, lock mode and cleanup flag, so each combination is different code.",
 [C, P, OG], [("generated resolve_N/aresolve_N slot methods", C + ":_compile_specialized_sync_slot_method"), ("cache write and method replacement", C + ":_replace_sync_cache"), ("generic path", C + ":_build_sync_slot_impl")],
 [("_cache_N", "value of slot N in the resolver of its owning scope", C)], ["Container.resolve", "Container.aresolve", "provider call counts"])
prop("C02", "Providers are called with exactly the dependencies their signature asks for",
 "Whenever a provider is called, each parameter it declares receives the value registered for that parameter's own key: no parameter receives another parameter's value, a parameter left to its default keeps that default, variadic parameters receive the expanded collection, and parameters are never duplicated or dropped. This is the same for constructors, factories, generators and context managers, sync or async, whatever the parameter kinds and their order, and whether the dependencies were inferred or given explicitly.",
 ["configurations", "programs"],
 "all signatures up to the bound over positional-only, positional-or-keyword, keyword-only and variadic parameters with and without defaults, markers and explicit dependencies",
 "Argument passing is chosen at compile time from the signature shape (positional, keyword, star, omitted); tests exercise a handful of shapes on one of the three code paths.",
 [P, C, PR], [("argument planning", P + ":_plan_dependency"), ("signature-order test", P + ":_dependency_order_is_signature_order"), ("specialised arguments", C + ":_optimized_sync_arguments"), ("generic arguments", C + ":_build_argument_parts_sync")],
 (), ["arguments bound by the provider callable"])
prop("C03", "A scope mismatch is reported exactly when a required scope is not open",
 "Resolving a key succeeds if and only if every scope owned by the providers it must run is open in the handle used (counting scopes opened on the way), and otherwise raises DIWireScopeMismatchError. The error is never another exception, never silently resolves in the wrong scope, and does not run a provider that belongs to a scope that is not open.",
 ["configurations", "histories"],
 "every assignment of scopes and lifetimes to a dependency graph and every chain of opened scopes, including chains that skip a skippable scope",
 "The decision is compiled separately into every (provider, scope class) pair with shortcuts; tests cover a few pairs, mostly without skipped scopes.",
 [C, P, SC], [("scope mismatch and delegation code", C + ":_scope_mismatch_lines_for_source"), ("required scope computation", P + ":_resolve_max_required_scope_level"), ("ancestor attributes", C + ":_compile_specialized_init_method")],
 [("_<scope>_resolver", "ancestor resolver of that scope or a missing marker", C)], ["exception type", "provider call log"])
prop("C04", "Cleanup runs exactly once, in reverse order, when the owning scope closes",
 "Every resource a generator or context-manager provider hands out is cleaned up exactly once, when the scope instance owning that provider closes and not before, in reverse order of acquisition within that scope, including for scopes opened implicitly on the way to a requested one (which close after the requested one). Closing one scope instance never runs cleanup belonging to another instance, and closing again runs nothing twice.",
 ["histories", "configurations"],
 "every interleaving of acquisitions and closings over the provider kinds, lifetimes and scopes up to the bound",
 "Tests check single-resource happy paths per provider kind; order and ownership depend on the whole history and on the compiled scope representation (stateless, pooled, or per-instance).",
 [C, OG], [("cleanup registration", C + ":_build_local_value_sync"), ("scope exit", C + ":_resolver_exit"), ("open generic cleanup", OG + ":_register_cleanup"), ("owned scopes", C + ":_resolver_enter_scope")],
 [("_cleanup_callbacks", "stack of pending cleanups of one scope instance", C), ("_owned_scope_resolvers", "implicitly opened ancestors to close", C)], ["order of provider teardown"])
prop("C05", "Faults in providers, bodies and cleanups never lose or repeat a cleanup",
 "If a provider fails, everything acquired before it in the open scopes is still cleaned up when those scopes close, the failed provider leaves no cached value and a later resolution runs it again. If a cleanup raises, all remaining cleanups still run, the first such error is raised by the close when the body succeeded, and the body's own exception always propagates unchanged; cleanups see the body's exception.",
 ["fault_sequences", "histories"],
 "every choice of which provider runs, body and cleanups raise (Exception or BaseException) over acquisition sequences up to the bound, sync and async",
 "Each test injects one fault; the guarantee is about every combination of faults in a scope.",
 [C, OG], [("exit loops", C + ":_resolver_exit, _resolver_aexit"), ("open generic callbacks", OG + ":_execute_sync_cleanup_callbacks")],
 (), ["teardown log", "exception raised by close / with-block"])
prop("C06", "Sync resolution fails exactly on async graphs, and both APIs agree otherwise",
 "resolve() of a key not yet cached raises DIWireAsyncDependencyInSyncContextError exactly when the provider or something it must resolve eagerly is async, without running any of the providers that depend on the async one; aresolve() always succeeds there. For graphs without async providers resolve() and aresolve() return equal object graphs with the same caching, and a sync close with only sync resources, or an async close with any, runs all of them.",
 ["configurations", "programs"],
 "every graph up to the bound with sync and async provider kinds, dependency markers, lifetimes and scopes",
 "Async requirement is propagated through the graph at planning time and compiled into two code families; tests check a few graphs.",
 [P, C, OG], [("async propagation", P + ":_resolve_requires_async"), ("async slots", C + ":_build_async_slot_impl")],
 (), ["exception type", "provider call log", "object identities"])
prop("C07", "enter_scope moves to the documented scope",
 "From any open scope, enter_scope() opens the next deeper non-skippable scope (or the next one if all deeper ones are skippable); enter_scope(S) for a deeper S opens S, passing through the documented default transitions; enter_scope of the current scope returns the current handle (at the deepest scope it may raise DIWireScopeMismatchError instead); any other target raises DIWireScopeMismatchError. Levels opened implicitly stay usable from the deeper handle and are closed with it, and containers with and without open generics behave identically.",
 ["inputs", "configurations"],
 "every scope tree up to the bound (levels and skippable flags symbolic) and every (current, target) pair, for both resolver families",
 "Tests use the built-in tree and one or two custom ones; the transition rule is implemented three times (generated fast path, generic function, open-generic wrapper).",
 [C, OG, SC], [("generated fast path", C + ":_compile_specialized_enter_scope_method"), ("generic transition", C + ":_resolver_enter_scope, _build_transition_plan_to_target"), ("open generic transition", OG + ":_resolve_scope_transition_path")],
 (), ["level of the returned handle", "which scoped providers resolve in it"])
prop("C08", "Concurrent threads build a cached value once",
 "When several threads resolve the same or mutually dependent cached keys of a compiled sync graph in the default (or thread) lock mode, each provider runs at most once per owning scope instance and all threads receive the same object, fully constructed, in every interleaving; no interleaving deadlocks, and a failing provider leaves the others able to finish.",
 ["schedules", "fault_sequences"],
 "all interleavings of up to three threads at the granularity of accesses to shared state, locks and provider entry/exit",
 "Thread tests run a few random schedules and cannot hit a window of a few bytecodes.",
 [C, P, OG], [("per-slot thread locks", C + ":_build_sync_slot_impl"), ("lock selection", P + ":_resolve_effective_lock_mode"), ("open generic locks", OG + ":_resolve_open_match_sync")],
 [("thread_lock_by_slot", "lock of a cached slot", C)], ["provider call counts and identities per thread"])
prop("C09", "Concurrent use never mixes keys, scopes or compilations",
 "With several threads resolving different keys, opening and closing scopes, and triggering first compilation on one container, each resolve returns a value of the key that was asked for, no two scopes opened by different threads share scoped values or context or end each other, and all threads see one root graph with one set of singletons.",
 ["schedules"],
 "all interleavings of up to three threads at the granularity of shared-state accesses",
 "The existing tests are single-threaded for these paths; the windows are a few bytecodes wide.",
 [C, CT], [("dispatch cache", C + ":_compile_dispatch_method"), ("pooled scope handle", C + ":_compile_specialized_enter_scope_method"), ("lazy compilation", CT + ":compile")],
 [("_last_sync_dispatch", "last resolved key with its method", C), ("_scope_resolver_N", "pooled scope handle", C), ("_root_resolver", "compiled graph", CT)], ["identity and type of resolved values per thread"])
prop("C10", "Concurrent asyncio tasks build a cached value once, also across failures",
 "When tasks concurrently aresolve cached keys whose graph is async, each provider completes at most once per owning scope instance and all tasks get the same object, in every interleaving at await points; if the task building it fails or is cancelled, waiting tasks neither hang nor receive a broken value: one of them builds it.",
 ["schedules", "fault_sequences"],
 "all interleavings of up to three tasks at await points, with any provider step failing or its task being cancelled",
 "asyncio tests use one gather order; cancellation during construction is not sampled.",
 [C, OG], [("per-slot async locks", C + ":_build_async_slot_impl"), ("open generic async locks", OG + ":_resolve_open_match_async")],
 (), ["provider call counts, identities and outcomes per task"])
prop("C11", "FromContext yields the value of the nearest open scope providing the key",
 "A context value requested anywhere (provider parameter, resolve, injected callable, Maybe) is the one passed by the innermost open scope on the handle's chain whose mapping contains that normalised key (for a provider parameter, the chain of the scope the provider runs in), even if the value is None or falsy; if none does, resolution raises DIWireDependencyNotRegisteredError, or yields None / the default for Maybe. A scope opened without context never sees values of a sibling or closed scope.",
 ["inputs", "histories", "configurations"],
 "every assignment of present/absent/None/falsy values to the scopes of a chain and to siblings, for each access path",
 "Tests cover one or two nesting shapes; the lookup is reached through several compiled paths and scope representations.",
 [C, OG, CT], [("context lookup", C + ":_resolver_resolve_from_context"), ("key normalisation", MK + ":strip_non_component_annotation")],
 [("_context", "mapping passed when this scope was entered", C), ("_parent_context_resolver", "enclosing scope handle", C)], ["resolved value"])
prop("C12", "Registrations take effect for the next resolution; failed ones change nothing",
 "After any sequence of registrations, decorations, compilations and resolutions, resolving a key uses the most recent successful registration of that key, whichever way the container's methods were obtained after the registration; a registration call that raises leaves every key resolving as before it.",
 ["histories", "fault_sequences"],
 "every history up to the bound of add/add_instance/add_factory/decorate/compile/resolve calls, valid and invalid",
 "Tests register then resolve; compiled entrypoints, snapshots and rollbacks interact only in longer histories.",
 [CT, PR, OG], [("invalidation and entrypoint rebinding", CT + ":_invalidate_compilation, _bind_container_entrypoints"), ("rollback", CT + ":_registration_mutation"), ("registry", PR + ":ProvidersRegistrations")],
 [("_root_resolver", "compiled graph or None", CT), ("_container_entrypoints", "original methods restored on invalidation", CT)], ["which provider produced the value"])
prop("C13", "Components are independent keys and All collects them in order",
 "A key with a Component resolves to the provider registered for exactly that component and never to another component or to the bare key. All[T] resolves to the tuple of the values of T's registered providers - the plain one and every component of T - each exactly once and in the documented order, each obeying its own lifetime and scope, and to an empty tuple when there are none.",
 ["configurations", "histories"],
 "every subset and order of plain, component and re-registered keys up to the bound, for each access path and lifetime",
 "Tests fix one order and one or two components; collection slots are computed from the registration history.",
 [P, C, MK, CT], [("All slots", P + ":_all_slots_by_key"), ("component keys", MK + ":component_base_key, strip_non_component_annotation")],
 (), ["tuple content and order"])
prop("C14", "Metadata other than Component never changes a key's identity",
 "For every type expression built from Annotated layers, two keys are the same registration exactly when their base types are equal and their Component markers are equal; all other metadata, in any position or nesting, is ignored on registration, resolution, dependency inference, context lookup and inside markers. Marker wrappers (Maybe, All, Provider, AsyncProvider, FromContext, Injected) unwrap to exactly the key they were given.",
 ["inputs"],
 "every Annotated nesting up to the bound with symbolic metadata kinds per position",
 "Tests pick a few annotation shapes; normalisation is recursive over arbitrary metadata lists.",
 [MK, CT, PR], [("normalisation", MK + ":strip_non_component_annotation"), ("marker stripping", MK)],
 (), ["equality of normalised keys", "resolved provider"])
prop("C15", "Open generics choose the most specific valid registration",
 "A closed generic key that has no closed registration resolves through the matching open registration with the highest specificity, the most recent one winning ties, with TypeVars bound consistently to the requested arguments and those arguments passed to the provider; a registration whose TypeVar bounds or constraints reject the arguments is never used, and if only such registrations match the error is DIWireInvalidGenericTypeArgumentError. A closed registration of exactly that key always wins.",
 ["inputs", "configurations", "histories"],
 "every set and order of open templates up to the bound and every closed key over the argument universe",
 "Tests use a few template/key pairs; matching is a recursive unification with a total order over candidates.",
 [OG, CT], [("matching", OG + ":_match_node, find_best_match"), ("specificity", OG + ":_specificity_score"), ("validation", OG + ":validate_typevar_arguments")],
 (), ["which provider built the value and the type arguments it received"])
prop("C16", "Open-generic values obey the same lifetime, scope and cleanup rules",
 "Values of open generic providers are cached per closed key and owning scope, never shared between different closed keys, obey the same scope-mismatch, transient, async and exactly-once reverse-order cleanup rules as ordinary providers, and mix with ordinary providers' cleanups in one acquisition order.",
 ["configurations", "histories"],
 "every provider kind, lifetime, scope, closed key and history of operations up to the bound, with and without ordinary providers with cleanup",
 "The open-generic resolver is a second implementation wrapped around the compiled one; tests check it on single keys.",
 [OG], [("wrapper cache and owners", OG + ":_resolve_open_match_sync, _scope_owner_for_level"), ("wrapper cleanup", OG + ":__exit__")],
 [("_cache", "values per closed key of one scope wrapper", OG)], ["identities, counts and teardown log"])
prop("C17", "The bound resolver follows with-block nesting and falls back to the container",
 "resolver_context.resolve/aresolve/enter_scope/inject always use the innermost resolver or scope handle currently entered in the running thread or task, and after every exit - normal or by exception, in properly nested order - the binding is exactly what it was before the matching enter; with nothing bound they use the last container configured. Bindings made in one task or thread are never visible in a sibling.",
 ["histories", "schedules", "fault_sequences"],
 "every well-nested history of enters and exits up to the bound over several containers, with exceptions, and interleavings of tasks",
 "Tests nest once or twice; token bookkeeping depends on the whole history, and on interleavings across tasks.",
 [RC, CT], [("token stack", RC), ("bound resolver", RC + ":_get_bound_resolver_or_none")],
 (), ["which container/scope produced the value"])
prop("C18", "Injected callables keep the caller's arguments and inject only what is missing",
 "Calling an injected callable behaves like calling the original with each injected parameter the caller did not pass filled by the container, every argument the caller passes (positionally or by keyword, including for injected parameters) arriving unchanged at its parameter, and the visible signature being the original without the injected parameters. The same holds for sync and async functions.",
 ["programs", "inputs"],
 "every signature up to the bound over parameter kinds, defaults and injected markers, and every valid way of passing arguments",
 "Tests fix a few signatures and calls; binding is computed from the combination of both.",
 [INJ, CT, RC], [("signature inspection", INJ), ("argument merging", CT + ":_resolve_sync_injected_arguments"), ("wrapper", RC)],
 (), ["arguments the original callable received", "inspect.signature"])
prop("C19", "An injected call opens the scope it needs and always closes it",
 "With automatic scopes on, an injected call runs in the required or declared scope: it reuses the active scope when that is at least as deep, otherwise it opens exactly one scope for the call and closes it - with all its cleanups - after the callable returns or raises, and nothing it opened stays open. Scope contracts that can never be satisfied are rejected at decoration or registration time, not at call time.",
 ["configurations", "histories", "fault_sequences"],
 "every combination of callable kind, declared scope, active scope, needed scope and body outcome up to the bound",
 "Tests check each callable kind once; the wrapper has four variants with separate scope handling.",
 [CT, RC, INJ], [("target scope", CT + ":_build_injected_target_scope_getter, _infer_injected_scope_level"), ("enter if needed", CT + ":_enter_scope_if_needed")],
 (), ["scope of injected values", "teardown log"])
prop("C20", "Circular dependencies are always detected, and only real ones",
 "If the eager dependencies reachable from registered providers contain a cycle, compilation or resolution raises a DIWire error naming the problem instead of recursing without bound; graphs without an eager cycle always compile and resolve. Provider handles, context values and unregistered optional dependencies do not count as eager dependencies.",
 ["programs", "configurations"],
 "every dependency graph up to the bound with direct, Maybe, All and Provider edges",
 "Tests use two or three fixed cycles; detection is a graph property over all edge kinds.",
 [P], [("cycle detection", P + ":_resolve_requires_async, _resolve_max_required_scope_level")],
 (), ["exception type", "termination"])
prop("C21", "Decorators wrap the current binding in registration order",
 "After any order of registrations, re-registrations and decorate() calls on a key, resolving it yields the latest binding wrapped by every decorator of that key exactly once, in the order they were added (the last outermost), with the binding's scope and lifetime; decorators never apply to another key or component, and other dependencies of a decorator resolve normally.",
 ["histories", "configurations"],
 "every history up to the bound of add/decorate/re-add on plain, component and open generic keys, with lifetimes and provider kinds",
 "Tests check fixed orders; the chain is rebuilt on every registration through alias keys.",
 [CT, OG], [("chain rebuild", CT + ":_rebuild_decoration_chain, _apply_pending_decorations"), ("base move", CT + ":_move_current_binding_to_base_key")],
 [("_decoration_chain_by_provides", "base and layer keys per decorated key", CT)], ["nesting of the resolved value"])
prop("C22", "Maybe dependencies are the value if registered, else the default or None",
 "A Maybe[X] dependency receives exactly what X would resolve to when X is registered, and otherwise the parameter's own default if it has one, else None, never an error about X; errors raised while building a registered X propagate instead of being turned into None. This is the same for parameters of every kind, for direct resolution, injected callables, components, context values and open generics.",
 ["configurations", "programs"],
 "every combination of presence, default, parameter kind, access path and inner key kind up to the bound",
 "Tests cover constructor parameters; there are separate implementations for plans, dispatch fallback, open generics and injection.",
 [P, C, OG, CT], [("plan", P + ":_plan_provider_dependency"), ("fallback", C + ":_resolve_dispatch_fallback_sync"), ("open generics", OG + ":_resolve_maybe_sync")],
 (), ["value received"])
prop("C23", "Provider handles are lazy and resolve in the scope of their consumer",
 "A Provider[X] or AsyncProvider[X] dependency runs nothing until called; each call returns what resolving X from the consumer's own scope would return at that moment, obeying X's lifetime, and never from another scope instance.",
 ["configurations", "histories"],
 "every combination of consumer and target scope, lifetime, provider kind, scope chain and number of calls up to the bound",
 "Tests call a handle once in one scope; handles are compiled as closures over the resolver of the consumer.",
 [P, C, OG], [("handle plan", P + ":_plan_provider_handle_dependency"), ("closures", C + ":_optimized_sync_dependency_expression")],
 (), ["call log", "identities"])
prop("C24", "Missing keys follow the configured policy",
 "With the error policy (or on_missing) an unregistered key raises DIWireDependencyNotRegisteredError and registers nothing; with the register policies exactly the documented concrete types become registered with the default lifetime at the root scope - recursively through dependencies only when recursion is on - existing registrations are never overwritten, and ineligible keys still raise.",
 ["configurations", "histories"],
 "every combination of missing policy, dependency policy, per-call override, eligibility of keys and existing registrations up to the bound",
 "Tests set one policy at a time; the policies interact at registration, resolution and injection.",
 [CT, SRC + "autoregistration.py", SRC + "policies.py"], [("autoregistration", CT + ":_ensure_autoregistration, _autoregister_provider_dependencies"), ("eligibility", SRC + "autoregistration.py")],
 (), ["outcome and set of registered keys"])
prop("C25", "The pytest plugin fills Injected test parameters from the test's own container",
 "In a session using the pytest plugin, every Injected parameter of a test - function, method, static or class method, sync or async, with parametrize or ordinary fixtures next to it - receives the value from the container that the diwire_container fixture nearest to the test provides, whatever other containers exist and whether or not that container binds a resolver context; every other parameter comes from pytest; the test runs exactly once per item, values of deeper scopes are cleaned up when it ends, and a missing key fails the test before its body runs.",
 ["programs", "configurations"],
 "every test signature, fixture layout, set of other containers and order of tests",
 "The existing tests run one module with one layout and call the hooks with dummy items.",
 [SRC + "integrations/pytest_plugin.py"], [("hooks", SRC + "integrations/pytest_plugin.py")], (), ["test outcome", "arguments received by the test body"])
p = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
p.write_text("".join(json.dumps(o) + "\n" for o in out))
