"""Replays concrete cases (solver models) on the unmodified code from /repo/src.

usage: python -m vf.replay FILE|-      FILE: {"property","harness","tier","cases":[{var: value}]}
With a FILE (a VIOLATION's replay) it prints what happened and exits 1 if the violation reproduces.
"""
from __future__ import annotations

import json
import signal
import sys
import traceback


def run_case(h, params, model, timeout):
    from . import loader, symx

    ctx = symx.ConcreteCtx(model)
    signal.signal(signal.SIGALRM, symx._alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        loader.reset_process_state()
        h.fn(ctx, **params)
        return {"status": "ok"}
    except symx.Violation as v:
        return {"status": "violation", "msg": v.msg}
    except symx.PathTimeout:
        return {"status": "timeout", "msg": "did not terminate"}
    except symx.PathInfeasible:
        return {"status": "infeasible", "msg": "assumption not satisfied by the model"}
    except symx.EngineStop as e:
        return {"status": "engine", "msg": f"{type(e).__name__}: {e}"}
    except Exception as e:
        return {"status": "violation", "msg": f"unexpected {type(e).__name__}: {e}",
                "tb": traceback.format_exc()[-2000:]}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def main():
    src = sys.argv[1]
    data = json.load(sys.stdin if src == "-" else open(src))
    from . import loader
    from .driver import _silence, load_property

    _silence()
    loader.install("plain", data["property"] in loader.THREADS)
    prop = load_property(data["property"])
    h = next(x for x in prop.harnesses if x.name == data["harness"])
    params = h.params(data.get("tier", "quick"))
    out = [run_case(h, params, m, h.path_timeout) for m in data["cases"]]
    if src == "-":
        print(json.dumps(out))
        return 0
    for m, r in zip(data["cases"], out):
        print(json.dumps({"model": m, "result": r}, indent=1))
    return 1 if any(r["status"] in ("violation", "timeout") for r in out) else 0


if __name__ == "__main__":
    sys.exit(main())
