"""Write the generated parts of DESIGN.md: per-property sections and the table of seeded bugs."""
import importlib, json, os, pathlib, re, sys
R = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(R))
T = {
"C01": ("refmodel (scope instances with caches, handles, transient delegation) against the real container: identity of every value of a symbolic history of resolves over a tree of scope handles, up to a one-to-one renaming, and how often each provider ran.",
        "scope x lifetime x graph shape x entry path x history is a product no test list covers; most defects need a particular first resolve before the one that goes wrong."),
"C02": ("Python's own binding rules: the harness builds a real function with the symbolic signature, computes which key each parameter asks for, and compares the arguments the provider stub recorded (by identity).",
        "argument passing is generated code with a different shape for every signature (positional-only, defaults, stars, keyword-only, omitted parameters) and provider kind."),
"C03": ("refmodel: the set of scopes that must be open for the providers a resolution runs; outcome class compared, and no provider of a scope that is not open may run.",
        "every placement of up to three providers over the scopes x every handle x both APIs."),
"C04": ("refmodel cleanup stacks: order and number of the close events of every resource, for histories of resolves and closes over trees of scopes, including implicitly opened ones and closes in every order, twice, and through each closing API.",
        "orders of closes and of acquisitions are histories."),
"C05": ("refmodel with a symbolic fault (any provider, at call, enter, after a suspension, on its n-th run; any subset of cleanups raising or swallowing; body ok or raising): remaining cleanups run, the reported exception is the documented one, exception info reaches cleanups as in nested with-statements, no cached value survives a failure.",
        "fault placement: every single (and several double) fault points of each explored program."),
"C06": ("a reachability computation over the symbolic graph (which eager providers are async) gives the exact set of failing sync resolves; the values of both APIs are compared.",
        "mixed sync/async graphs through transitive, Maybe, All and Provider edges, before and after something has been cached."),
"C07": ("the documented transition rule stated as a function of (levels, skippable flags, current, target), for user-defined scope classes with symbolic skippable masks.",
        "the transition table is compiled code; every mask, root and target pair."),
"C08": ("`vf/sched.py`: real OS threads handed a baton; every instruction of diwire's code is a possible preemption point, the preemption steps are symbolic, locks are cooperative (a blocked thread yields the baton, a cycle of blocked threads is a deadlock violation). Oracle: each provider ran at most once per owner, all threads hold the same fully built object, nobody hangs, failures leave the others able to finish.",
        "interleavings; each single-preemption schedule (and two preemptions in the thorough tier) at bytecode granularity."),
"C09": ("the same scheduler over operations on different keys, scopes, first compilation and on-demand registration: value of the key asked for, scope-private values and contexts, one root graph.",
        "interleavings of dispatch caches, scope pools, compilation and registration."),
"C10": ("`vf/aloop.py`: a deterministic event loop in which which ready task runs next, which suspended provider completes, and which task is cancelled are symbolic. Oracle: completions per owner <= 1, same object, no waiter hangs, a failed or cancelled build is taken over, cleanups happen once.",
        "await-point interleavings with failures and cancellations."),
"C11": ("innermost-mapping-wins lookup over the chain of handles (for provider parameters: the chain of the provider's scope), written directly; falsy and always-equal values.",
        "chains of scopes x mappings x spellings x reuse of pooled scope objects."),
"C12": ("a last-successful-write table: after each operation of a history, every key must resolve as the table says; an operation that raises must leave the table as it was.",
        "histories with failures at any step; methods captured before or after."),
"C13": ("the table of registered (base, component) keys with their insertion slots; All is the tuple of what the single keys resolve to.",
        "histories of registrations x spellings x consumers x scopes."),
"C14": ("a normalisation function written independently (base type and Component marker survive, nothing else), applied to symbolic spellings of the registered and the requested key; same key iff same normal form.",
        "spellings are a product of nesting, position and kinds of metadata (unhashable, oddly comparing)."),
"C15": ("an independent unifier with bounds and constraints and the documented specificity order.",
        "all ordered pairs/triples of a template catalogue against a catalogue of closed keys."),
"C16": ("refmodel over closed keys: open values behave as ordinary nodes of the same lifetime and scope; owners, cleanups and faults compared.",
        "the open path is separate, hand-written resolver code next to the generated one; the same product as C01/C04/C05 applies to it."),
"C17": ("a stack per task/thread; after every enter, exit, fork and registration each observer must see the top of its own stack, or the last configured container.",
        "interleavings of enters and exits over tasks and threads, with exceptions and failing cleanups."),
"C18": ("`inspect.Signature.bind_partial` on the original function plus the injection rule decides what the body must receive (by identity) or that a TypeError must be raised.",
        "signatures x call shapes."),
"C19": ("the scope rule (declared or inferred target, reuse when at least as deep, else open one) stated on levels; events of open/close, values and cleanups compared; contract satisfiability decided by the same rule.",
        "signatures x active scopes x faults x registration orders."),
"C20": ("reachability of a cycle in the symbolic eager-dependency graph: every graph of 3 nodes and every loop-free-node graph of 4.",
        "graphs."),
"C21": ("a list of decorators per key; the value must be the binding wrapped by exactly that list.",
        "histories of registrations and decorations with refusals, and forms of decorators."),
"C22": ("presence of the inner key in the table decides value / default / None; failures of a present provider must come out unchanged.",
        "kind of inner key x place of use x default x failure."),
"C23": ("nothing runs before the call; each call is compared with resolving the key from the consumer's scope at that moment.",
        "kind of consumer and handle x scopes of both ends x time of the call."),
"C24": ("a policy function (key kind x policy -> registered set) and a lookup of every key after every operation.",
        "31 kinds of key x policies x entry points x histories."),
"C25": ("real pytest sessions in the checking process, one generated directory per path: tagged containers make visible where each argument came from; number of runs, reports, cleanup of REQUEST values.",
        "test forms x fixture layouts x other containers; the existing tests run one module."),
}
def cut(text, name, new):
    a, b = f"<!-- {name} -->", f"<!-- /{name} -->"
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: f"{a}\n{new}{b}", text, flags=re.S)
def main():
    out = []
    props = {}
    for l in (R / "properties.jsonl").read_text().splitlines():
        d = json.loads(l); props[d["id"]] = d
    for pid, (oracle, why) in T.items():
        m = importlib.import_module(f"vf.harness.{pid.lower()}")
        P = m.PROPERTY
        out.append(f"### {pid} {props[pid]['title']}\n\n*Oracle:* {oracle}\n\n*Beyond the tests:* {why}\n\n*Harnesses and bounds (quick tier):*\n\n")
        for h in P.harnesses:
            out.append(f"* `{h.name}`{' (thorough only)' if h.thorough_only else ''}: {h.bounds}\n")
        o = P.outside if isinstance(P.outside, str) else "; ".join(P.outside)
        out.append(f"\n*Outside the bounds:* {o or 'see the assumptions in the evidence file'}\n\n")
    f = R / "DESIGN.md"; s = f.read_text()
    s = cut(s, "properties", "".join(out))
    rows = ["| planted bug | property | what it breaks | needs | caught |\n|---|---|---|---|---|\n"]
    caught = json.loads((R / "tools" / "caught.json").read_text()) if (R / "tools" / "caught.json").exists() else {}
    for d in sorted((R / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        rows.append(f"| {d.name} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {caught.get(d.name, '')} |\n")
    s = cut(s, "seeded", "".join(rows))
    f.write_text(s)
main()
