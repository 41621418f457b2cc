"""Regenerate MANIFEST.json from properties.jsonl and the harness modules present."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
naf = os.path.join(ROOT, "tools", "not_applicable.json")
if os.path.exists(naf):
    NA = json.load(open(naf))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "symq", "props", i.lower() + ".py")) and i not in NA:
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python -m symq.run %s" % i,
            "thorough_cmd": "/opt/venv/bin/python -m symq.run %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "symbolic execution of /repo's Python over a symbolic numpy, Z3 decides every branch and obligation",
            "level": "model_checking",
            "level_note": "all paths within the bounds listed in the evidence file (shapes <= 4 elements, exponents and "
                          "histories bounded); magnitudes are exact reals except where IEEE doubles are stated; "
                          "every violation is replayed on the untouched package and numpy before it is reported",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); "
                  "import z3, numpy; print(z3.get_version_string(), numpy.__version__)\"",
     "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known_findings.txt lists repaired and recorded defects"}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
