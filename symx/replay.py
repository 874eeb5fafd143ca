"""Concrete replay of cases on the real, unpatched package.

usage: python -m symx.replay CASES.json [--out OUT.json]
Exit 1 when at least one case breaks its property on the real code.
"""
import os

os.environ["SYMX_MODE"] = "concrete"

import json
import sys
import traceback
import warnings


def run_case(c):
    from symx.ctx import CheckFailed, ConcreteCtx, Skip
    from props import registry

    t = registry()[c["task"]]
    res = None
    for route in t["routes"]:
        r = run_route(c, t["fn"], route, ConcreteCtx, CheckFailed, Skip)
        if r["status"] == "violation":
            return r
        if res is None or r["status"] == "ok":
            res = r
    return res


def run_route(c, h, route, ConcreteCtx, CheckFailed, Skip):
    ctx = ConcreteCtx(c["values"], c["choices"])
    ctx.route = route
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h(ctx, **c["config"])
        return {"status": "ok", "checks": ctx.checks}
    except CheckFailed as ex:
        return {"status": "violation", "msg": ex.msg}
    except Skip:
        return {"status": "skip"}
    except Exception as ex:
        return {
            "status": "violation",
            "msg": f"raised {type(ex).__name__}: {ex}",
            "tb": traceback.format_exc(limit=-4),
        }
    finally:
        ctx.cleanup()


def main():
    doc = json.load(open(sys.argv[1]))
    cases = doc if isinstance(doc, list) else doc.get("cases", [doc])
    out = [run_case(c) for c in cases]
    if "--out" in sys.argv:
        json.dump(out, open(sys.argv[sys.argv.index("--out") + 1], "w"))
    else:
        for c, r in zip(cases, out):
            print(json.dumps({"inputs": c["values"], "choices": c["choices"], "result": r}, default=str))
    sys.exit(1 if any(r["status"] == "violation" for r in out) else 0)


if __name__ == "__main__":
    main()
