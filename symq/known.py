"""known_findings.txt

known: property=C19 harness=C19.mul label=REGEX params=REGEX :: what fails
fixed: property=C07 <commit> what failed           (documentation only; suppresses nothing)
"""
import json
import os
import re


def load(path):
    out = []
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        m = re.match(r"known: property=(\S+) harness=(\S+) label=(\S+) params=(\S+) :: (.*)$", line)
        if m:
            out.append({"property": m[1], "harness": m[2], "label": re.compile(m[3] + r"\Z"),
                        "params": re.compile(m[4] + r"\Z"), "text": m[5]})
    return out


def match(kf, prop, harness, params, label):
    p = json.dumps(params, sort_keys=True).replace(" ", "")
    for k in kf:
        if k["property"] == prop and k["harness"] == harness and k["label"].match(label) and k["params"].match(p):
            return k
    return None
