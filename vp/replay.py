"""Runs recorded cases on the unmodified code of /repo (no rewriting).

usage: python -m vp.replay FILE        FILE: {"property","harness","case","inputs",...}
       python -m vp.replay --batch IN OUT
"""
import importlib
import json
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path[:0] = [REPO, VERIF]
sys.dont_write_bytecode = True

from vp.ctx import RealCtx, Violation, Assumed


def norm(v):
    """JSON-able form of an observation."""
    if isinstance(v, (list, tuple)): return [norm(x) for x in v]
    if isinstance(v, dict): return {str(k): norm(x) for k, x in v.items()}
    if v is None or isinstance(v, (bool, int, float, str)): return v
    return repr(v)


def run_one(prop, tier, harness, case, inputs):
    mod = importlib.import_module("harness." + prop.lower())
    h = {h.name: h for h in mod.harnesses(tier)}[harness]
    sx = RealCtx(inputs)
    try:
        r = h.fn(sx, **h.cases[case])
        return {"outcome": "ok", "value": norm(r)}
    except Violation as e:
        return {"outcome": "fail", "label": e.label, "detail": repr(e.detail)[:2000]}
    except Assumed:
        return {"outcome": "assume"}
    except Exception as e:
        return {"outcome": "fail", "label": "exception:" + type(e).__name__, "detail": traceback.format_exc(limit=-6)[:3000]}


def main(argv):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))      # runaway loops end in MemoryError
    if argv[0] == "--batch":
        with open(argv[1]) as f: jobs = json.load(f)
        out = []
        for j in jobs:
            out.append(run_one(j["property"], j["tier"], j["harness"], j["case"], j["inputs"]))
        with open(argv[2], "w") as f: json.dump(out, f)
        return 0
    with open(argv[0]) as f: j = json.load(f)
    r = run_one(j["property"], j["tier"], j["harness"], j["case"], j["inputs"])
    print("property %s harness %s case %s" % (j["property"], j["harness"], j["case"]))
    print("inputs: %s" % json.dumps(j["inputs"]))
    print(json.dumps(r, indent=1))
    return 1 if r["outcome"] == "fail" else 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
