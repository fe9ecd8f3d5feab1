"""Parallel driver: explores every harness of a property, replays counterexamples on the
unmodified code, writes evidence, prints the verdict.

usage: python -m vf.driver <PROPERTY> [--tier quick|thorough] [--jobs N] [--only HARNESS]
"""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import queue as queue_mod
import random
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VF_EVIDENCE", os.path.join(ROOT, "evidence"))


def load_property(pid):
    mod = importlib.import_module(f"vf.harness.{pid.lower()}")
    return mod.PROPERTY


def _silence():
    sys.unraisablehook = lambda *_: None
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")


def worker(pid, tier, hidx, inq, outq, eager):
    from . import loader, symx

    symx.EAGER = eager

    _silence()
    try:
        prop = load_property(pid)
        h = prop.harnesses[hidx]
        params = h.params(tier)
        loader.watch_functions()
        eng = symx.Engine(lambda ctx: h.fn(ctx, **params), path_timeout=h.path_timeout)
        while True:
            item = inq.get()
            if item is None:
                return
            prefix, budget, want_model, slice_s = item
            stack = [tuple(prefix)]
            eng.queries = eng.paths = eng.infeasible = eng.decisions = 0
            eng.obligations = eng.trivial = eng.implied = 0
            eng.solver_s = 0.0
            eng.tags = {}
            eng.violations = []
            eng.models = []
            t0 = time.time()
            n = 0
            err = None
            try:
                while stack and n < budget and time.time() - t0 < slice_s and len(eng.violations) < 20:
                    p = stack.pop()
                    alts = eng.run_path(p, keep_model=(want_model and n < want_model))
                    stack.extend(alts)
                    n += 1
                    if eng.violations and eng.violations[-1]["detail"] == "timeout":
                        break
            except symx.EngineStop as e:
                err = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2000:]}"
            outq.put(
                dict(
                    left=stack,
                    paths=eng.paths,
                    infeasible=eng.infeasible,
                    decisions=eng.decisions,
                    obligations=eng.obligations,
                    trivial=eng.trivial,
                    queries=eng.queries,
                    solver_s=eng.solver_s,
                    tags=eng.tags,
                    violations=eng.violations,
                    models=eng.models,
                    funcs=loader.seen_functions(),
                    err=err,
                )
            )
    except BaseException:
        outq.put(dict(err="worker crashed\n" + traceback.format_exc()[-3000:]))


class HarnessResult:
    def __init__(self, h):
        self.h = h
        self.paths = self.infeasible = self.decisions = 0
        self.obligations = self.trivial = self.queries = 0
        self.solver_s = 0.0
        self.tags = {}
        self.violations = []
        self.models = []
        self.funcs = set()
        self.err = None
        self.complete = False
        self.wall = 0.0
        self.extra = {}


def explore_symx(pid, tier, hidx, h, jobs, deadline, known_match, eager=False):
    res = HarnessResult(h)
    t0 = time.time()
    ctxm = mp.get_context("fork")
    inq = ctxm.Queue()
    outq = ctxm.Queue()
    procs = [
        ctxm.Process(target=worker, args=(pid, tier, hidx, inq, outq, eager), daemon=True)
        for _ in range(jobs)
    ]
    for p in procs:
        p.start()
    pending = 0
    todo = [()]
    models_wanted = 400
    stop = False
    new_viols = 0
    try:
        while (todo or pending) and not stop:
            while todo and pending < jobs * 2:
                # small slices while the frontier is small, so that work spreads quickly
                frontier = len(todo) + pending
                budget = 4 if frontier < jobs * 2 else (60 if frontier < jobs * 8 else 400)
                want = 2 if len(res.models) < models_wanted else 0
                inq.put((todo.pop(0 if frontier < jobs * 4 else -1), budget, want, 5.0))
                pending += 1
            try:
                r = outq.get(timeout=1.0)
            except queue_mod.Empty:
                if time.time() > deadline:
                    res.err = "time budget exhausted before the exploration was complete"
                    stop = True
                if not all(p.is_alive() for p in procs) :
                    res.err = "a worker process died"
                    stop = True
                continue
            pending -= 1
            if r.get("err"):
                res.err = r["err"]
                stop = True
                if "left" not in r:
                    break
            todo.extend(reversed(r["left"]))
            for k in ("paths", "infeasible", "decisions", "obligations", "trivial", "queries", "solver_s"):
                setattr(res, k, getattr(res, k) + r[k])
            for k, v in r["tags"].items():
                res.tags[k] = res.tags.get(k, 0) + v
            res.models.extend(m for m in r["models"] if m is not None)
            res.funcs |= r["funcs"]
            for v in r["violations"]:
                v["harness"] = h.name
                res.violations.append(v)
                if not known_match(v):
                    new_viols += 1
            if os.environ.get("VF_DUMP"):
                for v in r["violations"]:
                    print("DUMP", v["msg"][:300], json.dumps(v["model"]))
            elif new_viols >= 12 or any(v["detail"] == "timeout" for v in res.violations):
                stop = True
            if time.time() > deadline and not stop:
                res.err = "time budget exhausted before the exploration was complete"
                stop = True
        res.complete = not stop and not todo and not pending
    finally:
        for p in procs:
            p.kill()
        for p in procs:
            p.join()
        inq.cancel_join_thread()
        outq.cancel_join_thread()
    res.wall = time.time() - t0
    return res


def run_plain(pid, tier, hname, cases, timeout):
    """Run concrete cases on the unmodified code in a fresh process. Returns list of results."""
    inp = json.dumps({"property": pid, "tier": tier, "harness": hname, "cases": cases})
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    try:
        p = subprocess.run(
            [sys.executable, "-m", "vf.replay", "-"],
            input=inp, capture_output=True, text=True, cwd=ROOT, env=env, timeout=timeout,
        )
    except subprocess.TimeoutExpired:
        return None
    if p.returncode != 0:
        return [{"status": "crash", "msg": p.stderr[-2000:]}]
    return json.loads(p.stdout.strip().splitlines()[-1])


def load_known(pid):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data["findings"] if e["property"] == pid]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VF_JOBS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--only")
    ap.add_argument("--eager", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = a.tier
    rnd = random.Random(seed)
    t0 = time.time()
    budget = a.budget or (780.0 if tier == "quick" else 6 * 3600.0)
    deadline = t0 + budget
    _silence()
    from . import loader

    pid = a.property
    loader.install("sym", pid in loader.THREADS)
    prop = load_property(pid)
    known = load_known(pid)

    def known_match(v):
        for e in known:
            hs = e["harness"] if isinstance(e["harness"], list) else [e["harness"]]
            if v["harness"] in hs and v["msg"].startswith(e["message_prefix"]):
                return e
        return None

    results = []
    reported = None
    errors = []
    known_seen = {}
    validated = [0]
    os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
    def report(h, v, r, msg, model, suffix=""):
        digest = hashlib.sha1(json.dumps([h.name, model], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(EVID, "replays", f"{pid}-{h.name}-{digest}{suffix}.json")
        with open(path, "w") as f:
            json.dump(
                {
                    "property": pid, "tier": tier, "harness": h.name, "message": msg,
                    "cases": [model], "detail": v and v["detail"],
                    "how": f"cd {ROOT} && python3-vt -m vf.replay {path}",
                    "replayed": r if r else "timeout",
                },
                f, indent=1,
            )
        print(f"  counterexample ({h.name}): {msg}", flush=True)
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return path

    def attempt(hidx, h, eager):
        """Explore one harness. Returns (result, reported path or None, errors)."""
        errs = []
        res = explore_symx(pid, tier, hidx, h, a.jobs, deadline, known_match, eager)
        if eager:
            res.extra["eager"] = True
        print(
            f"[{pid}] {h.name}{' (eager)' if eager else ''}: paths={res.paths} infeasible={res.infeasible} "
            f"decisions={res.decisions} "
            f"obligations={res.obligations} queries={res.queries} solver={res.solver_s:.1f}s "
            f"wall={res.wall:.1f}s complete={res.complete} violations={len(res.violations)}"
            + (f" ERR={res.err}" if res.err else ""),
            flush=True,
        )
        # --- counterexamples: replay on the unmodified code
        seen = set()
        unreproduced = []
        tries = 0
        for v in res.violations:
            if v["model"] is None:
                continue
            e = known_match(v)
            if e is not None:
                kid = e["id"]
                if kid in known_seen:
                    continue
                r = run_plain(pid, tier, h.name, [v["model"]], 90)
                if r and r[0]["status"] == "violation":
                    known_seen[kid] = e
                    print(f"KNOWN-FINDING: property={pid} {e['what']}", flush=True)
                else:
                    errs.append(f"known finding {kid} did not reproduce on unmodified code: {r}")
                continue
            if v["msg"] in seen or tries >= 6:
                continue
            seen.add(v["msg"])
            tries += 1
            r = run_plain(pid, tier, h.name, [v["model"]], 90 if v["detail"] == "timeout" else 120)
            if (r is None and v["detail"] == "timeout") or (
                r is not None and r[0]["status"] in ("violation", "timeout")
            ):
                return res, report(h, v, r and r[0], v["msg"], v["model"]), []
            unreproduced.append((v["msg"], r))
        if unreproduced:
            errs.append(f"{h.name}: counterexample did not reproduce on the unmodified code: {unreproduced[:2]}")
        if res.err:
            errs.append(f"{h.name}: {res.err}")
        # --- vacuity guard
        missing = [t for t in h.reach if not res.tags.get(t)]
        if missing and res.complete:
            errs.append(f"{h.name}: reachability witnesses not reached: {missing}")
        # --- translator validation: path models executed on the unmodified code
        if res.models:
            ms = res.models[:]
            rnd.shuffle(ms)
            ms = ms[: (80 if tier == "quick" else 400)]
            r = run_plain(pid, tier, h.name, ms, 300)
            if r is None:
                errs.append(f"{h.name}: validation replays timed out")
            else:
                for m, x in zip(ms, r):
                    if x["status"] == "ok":
                        validated[0] += 1
                    elif x["status"] == "violation" and not known_match({"harness": h.name, "msg": x["msg"]}):
                        return res, report(h, None, x, x["msg"], m, "-plain"), []
                    elif x["status"] not in ("ok", "violation"):
                        errs.append(f"{h.name}: validation replay: {x}")
                        break
        return res, None, errs

    for hidx, h in enumerate(prop.harnesses):
        if a.only and h.name != a.only:
            continue
        if h.thorough_only and tier != "thorough":
            continue
        res, reported, errs = attempt(hidx, h, a.eager)
        if errs and not reported and not a.eager and h.kind == "symx" and time.time() < deadline - 60:
            for e in errs:
                print("RETRY (eager decisions):", e[:1500], flush=True)
            res, reported, errs = attempt(hidx, h, True)
        results.append(res)
        errors += errs
        if reported:
            break

    wall = time.time() - t0
    funcs = sorted({f"{a_}:{b_}" for r in results for (a_, b_) in r.funcs if a_ != "generated"})
    gen = sorted({b_ for r in results for (a_, b_) in r.funcs if a_ == "generated"})
    samples = []
    for r in results:
        if r.models:
            samples.append({"harness": r.h.name, "path_model": rnd.choice(r.models)})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": sum(r.paths for r in results),
            "transitions": sum(r.decisions for r in results),
            "traces_validated_against_impl": validated[0],
            "exhaustive": bool(results) and all(r.complete for r in results),
            "samples": samples[:20],
            "rule": "states = feasible symbolic paths (distinct path conditions) explored; transitions = "
            "branch decisions on symbolic values; traces_validated_against_impl = solver models of "
            "explored paths executed on the unmodified code with the same verdict",
            "solver_queries": sum(r.queries for r in results),
            "solver_seconds": round(sum(r.solver_s for r in results), 3),
            "obligations": sum(r.obligations for r in results),
            "obligations_decided_syntactically": sum(r.trivial for r in results),
            "infeasible_paths_pruned": sum(r.infeasible for r in results),
            "harnesses": [
                {
                    "name": r.h.name, "bounds": r.h.bounds, "paths": r.paths, "decisions": r.decisions,
                    "obligations": r.obligations, "queries": r.queries,
                    "solver_s": round(r.solver_s, 3), "wall_s": round(r.wall, 2),
                    "complete": r.complete, "reached": r.tags, **r.extra,
                }
                for r in results
            ],
            "functions_encoded": funcs,
            "generated_functions_encoded": len(gen),
            "generated_functions_sample": gen[:40],
        },
        "assumptions": prop.assumptions + ([f"outside the claim: {prop.outside}"] if prop.outside else []),
        "wall_s": round(wall, 2),
        "violations": 1 if reported else 0,
    }
    if known_seen:
        ev["coverage"]["known_findings_reproduced"] = sorted(known_seen)
    if errors:
        ev["coverage"]["errors"] = errors
    if not a.only:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
    if reported:
        return 1
    if errors:
        for e in errors:
            print("ERROR:", e, file=sys.stderr)
        return 2
    print(f"[{pid}] HELD on everything explored ({sum(r.paths for r in results)} paths, {wall:.1f}s)")
    return 0


if __name__ == "__main__":
    sys.exit(main())
