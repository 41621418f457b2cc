"""Check one property:  run.py C01 [--tier quick|thorough] [--jobs N] [--only SUBSTR]"""
import argparse
import json
import os
import queue
import re
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from symq import harness, load, known  # noqa: E402

PY = os.environ.get("SYMQ_PYTHON", "/opt/venv/bin/python")


class Worker(threading.Thread):
    def __init__(self, tasks, results, hard):
        super().__init__(daemon=True)
        self.tasks, self.results, self.hard = tasks, results, hard
        self.p = None

    def start_proc(self):
        env = dict(os.environ)
        env["PYTHONHASHSEED"] = "0"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = "1"
        self.p = subprocess.Popen([PY, "-m", "symq.worker"], cwd=ROOT, env=env, text=True,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def run(self):
        while True:
            try:
                t = self.tasks.get_nowait()
            except queue.Empty:
                break
            if time.time() > self.hard - 1:
                self.results.put({"idx": t["idx"], "harness": t["harness"], "params": t["params"], "skipped": True})
                continue
            t["budget"] = min(t["budget"], self.hard - time.time())
            if self.p is None or self.p.poll() is not None:
                self.start_proc()
            killer = threading.Timer(t["budget"] + 45, self.p.kill)
            killer.start()
            try:
                self.p.stdin.write(json.dumps(t) + "\n")
                self.p.stdin.flush()
                line = self.p.stdout.readline()
            except OSError:
                line = ""
            finally:
                killer.cancel()
            if line:
                r = json.loads(line)
                if t.get("again") and not r.get("complete") and r.get("wall", 0) > 0.7 * t["budget"] and not r.get("violations") and not self.hard < time.time():
                    # a long one: let the others have their turn first
                    self.tasks.put(dict(t, budget=t["again"], again=None))
                    continue
                self.results.put(r)
            else:
                self.p = None
                self.results.put({"idx": t["idx"], "harness": t["harness"], "params": t["params"],
                                  "crash": "worker died"})
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=10)
            except Exception:
                self.p.kill()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SYMQ_JOBS", "8")))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    budget_total = float(os.environ.get("SYMQ_BUDGET", "420" if tier == "quick" else "780"))
    per_task = 120.0 if tier == "quick" else 500.0
    first = 25.0
    harness.load_all(a.prop)
    hs = [h for h in harness.HARNESSES.values() if h.prop == a.prop]
    if not hs:
        print("no harness for", a.prop)
        return 2
    tasks, per = [], []
    for h in hs:
        for k, p in enumerate(h.tasks(tier)):
            if a.only and a.only not in h.id + " " + json.dumps(p):
                continue
            tasks.append({"harness": h.id, "params": p, "tier": tier, "budget": per_task, "seed": seed})
            if tier == "quick":
                tasks[-1].update(budget=first, again=per_task)
            per.append(k)
    # every harness in turn, so that one that has become slow does not keep the others from running
    tasks = [tasks[i] for i in sorted(range(len(tasks)), key=lambda i: per[i])]
    q, res = queue.Queue(), queue.Queue()
    for i, t in enumerate(tasks):
        t["idx"] = i
        q.put(t)
    hard = t0 + budget_total
    ws = [Worker(q, res, hard) for _ in range(min(a.jobs, len(tasks)))]
    for w in ws:
        w.start()
    R = []
    kf = known.load(os.path.join(ROOT, "known_findings.txt"))
    found, stop = 0, None
    while len(R) < len(tasks):
        if stop is None and (found >= 8 and time.time() - t0 > 60 or found and time.time() - t0 > 240):
            # enough confirmed violations: do not begin further tasks, give the running ones half a minute
            stop = time.time() + 30
            for w in ws:
                w.hard = 0
        if stop is not None and time.time() > stop:
            for w in ws:
                if w.p is not None and w.p.poll() is None:
                    w.p.kill()
        try:
            r = res.get(timeout=5)
        except queue.Empty:
            if not any(w.is_alive() for w in ws) and res.empty():
                break
            continue
        R.append(r)
        found += sum(1 for v in r.get("violations", []) for lab in v["labels"]
                     if not known.match(kf, a.prop, v["harness"], v["params"], lab))
        if a.v:
            print(json.dumps({k: r.get(k) for k in ("harness", "params", "paths", "obligations", "trivial", "wall", "complete",
                                                    "violations", "unreproduced", "undecided", "unmodelled",
                                                    "mismatch", "witnesses", "wit_diverged", "sampled_paths",
                                                    "concretised", "crash") if r.get(k)}), flush=True)
    for w in ws:
        w.join(timeout=15)
    return report(a.prop, tier, seed, hs, tasks, R, time.time() - t0)


def report(prop, tier, seed, hs, tasks, R, wall):
    kf = known.load(os.path.join(ROOT, "known_findings.txt"))
    out = os.path.join(ROOT, "out", "replay")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    R.sort(key=lambda r: r.get("idx", 0))
    viol, knownhits, notes = [], {}, []
    for r in R:
        for v in r.get("violations", []):
            for lab in v["labels"]:
                k = known.match(kf, prop, v["harness"], v["params"], lab)
                if k:
                    knownhits.setdefault(k["text"], v)
                else:
                    viol.append((v, lab))
        if r.get("crash"):
            notes.append("task crashed: %s %s: %s" % (r["harness"], r["params"], r["crash"].strip().splitlines()[-1]))
        if r.get("skipped"):
            notes.append("not run within the time budget: %s %s" % (r["harness"], r["params"]))
        for kind in ("unreproduced", "undecided"):
            for u in r.get(kind, []):
                notes.append("%s: %s %s %s" % (kind, r["harness"], r["params"], u["label"]))
        for u in r.get("unmodelled", [])[:3]:
            notes.append("outside the encoding: %s %s: %s" % (r["harness"], r["params"], u))
        for u in r.get("mismatch", [])[:3]:
            notes.append("encoding mismatch: %s %s %s" % (r["harness"], r["params"], u))
        if r.get("vacuous"):
            notes.append("no obligation reached: %s %s" % (r["harness"], r["params"]))
        if r.get("complete") is False and not r.get("violations"):
            notes.append("incomplete exploration: %s %s (%s)" % (r["harness"], r["params"], r.get("budget", "path limit")))
    missing = len(tasks) - len(R)
    if missing:
        notes.append("%d tasks without a result" % missing)
    tot = lambda k: sum(r.get(k, 0) or 0 for r in R)   # noqa: E731
    done = [r for r in R if "paths" in r]
    funcs = sorted({f for r in R for f in r.get("functions", [])})
    cuts, conc = {}, {}
    for r in R:
        for k, n in (r.get("cuts") or {}).items():
            cuts[k] = cuts.get(k, 0) + n
        for k, n in (r.get("concretised") or {}).items():
            conc[k] = conc.get(k, 0) + n
    samples = []
    for r in done:
        if r.get("samples"):
            samples.append({"harness": r["harness"], "params": r["params"], **r["samples"][0]})
    step = max(1, len(samples) // 12)
    samples = samples[::step][:12] or [{"note": "no sample"}]
    files = []
    seen = set()
    for v, lab in viol:
        key = (v["harness"], lab)
        if key in seen and len(files) >= 3:
            continue
        seen.add(key)
        path = os.path.join(out, "%s-%d.json" % (prop, len(files)))
        json.dump(dict(v, label=lab), open(path, "w"), indent=1, default=str)
        files.append((path, v, lab))
    exhaustive = not notes and not conc and all(r.get("complete") for r in done)
    meta = {}
    for h in hs:
        d = (h.fn.__doc__ or "").strip().split("\n\n")[0]
        meta[h.id] = " ".join(d.split())
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("branches"),
            "traces_validated_against_impl": tot("witnesses"),
            "samples": samples, "tasks": len(tasks), "tasks_completed": sum(1 for r in done if r.get("complete")),
            "exhaustive": exhaustive,
            "queries": tot("queries"), "solver_seconds": round(tot("solver_s"), 2),
            "obligations": tot("obligations"), "obligations_closed_by_normal_form": tot("trivial"),
            "infeasible_or_cut_paths": tot("aborted"), "sampled_paths": tot("sampled_paths"),
            "witness_replays_diverged": tot("wit_diverged"),
            "functions_encoded": funcs, "harnesses": meta,
            "bounds": {"parameters": {h.id: (dict(h.grid, **(h.tgrid if tier == "thorough" else {}))) for h in hs},
                       "max_paths_per_task": {h.id: h.max_paths for h in hs}},
            "cuts": cuts, "concretised": conc, "inconclusive": notes[:60],
            "known_findings": list(knownhits),
        },
        "assumptions": [
            "magnitudes are exact reals (no rounding, overflow or NaN) unless a harness uses IEEE binary64 inputs (fparr)",
            "numpy's C code: views, broadcasting, indexing and wrapping run for real; element arithmetic follows the "
            "element table of symq/symnp.py (validated by replaying a witness of each explored path on real numpy)",
            "CPython tuple hashes are collision free except hash(-1)==hash(-2)",
            "transcendental functions are uninterpreted",
            "division by zero / even roots of negatives are assumed away where counted in coverage.cuts",
        ],
        "wall_s": round(wall, 2),
    }
    if files:
        ev["violations"] = [{"harness": v["harness"], "params": v["params"], "inputs": v["values"], "label": lab,
                             "replay": p} for p, v, lab in files]
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for text in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    for n in notes[:25]:
        print("INCONCLUSIVE:", n)
    print("%s %s: %d tasks, %d paths, %d obligations (%d solver queries, %.1fs), %d replayed witnesses, %.1fs"
          % (prop, tier, len(tasks), tot("paths"), tot("obligations"), tot("queries"), tot("solver_s"),
             tot("witnesses"), wall))
    if files:
        for p, v, lab in files[:8]:
            print("VIOLATION property=%s replay=%s" % (prop, p))
            print("   %s %s inputs=%s: %s" % (v["harness"], v["params"], v["values"], lab))
        return 1
    if tot("obligations") == 0 or not done:
        print("nothing was decided")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
