"""Writes /verif/MANIFEST.json: a check per property with a harness, the rest not applicable."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read())
checks, na = [], []
for x in props:
    i = x["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="bounded symbolic execution of the real source with an SMT solver (z3), counterexamples replayed",
            level="model_checking",
            level_note="Every feasible path of the real code within the bounds stated in the evidence is decided by z3 (a violation is reported only after it reproduces on the unmodified code). Trusted: the source rewriter and the models of str/int/re/dict operations in vp/, cross-checked by replaying a sample of paths on the real code in every run; inputs outside the stated bounds are not covered."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && test -x check.sh",
    hooks=dict(guard="VP_HOOKS", enable="no hooks are needed: the checks load /repo's source through a rewriting importer", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="See DESIGN.md. ./check.sh PROPERTY [quick|thorough]; counterexamples are written to evidence/replay/ and can be replayed with: cd /verif && /opt/venv/bin/python -m vp.replay FILE")
with open(os.path.join(V, "MANIFEST.json"), "w") as f: json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
