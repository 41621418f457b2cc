"""Which planted bugs do the checks catch:  seedcheck.py [--all-props] [ID...]   (run by hand, in a scratch copy)"""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = f"/tmp/seedchk-{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    r = subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=d)
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    prop = m["property"]
    t = time.time()
    props = [f"C{k:02d}" for k in range(1, 1 + sum(1 for _ in open(V + "/properties.jsonl")))] if "--all-props" in sys.argv else [prop]
    hits = []
    for p in props:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "symq.run", p], cwd=V, text=True, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, env=dict(os.environ, SYMQ_REPO=d, SYMQ_OUT="/tmp/seedout"))
        if r.returncode == 1:
            hits.append(p)
        elif r.returncode:
            hits.append(f"{p}=exit{r.returncode}")
        first = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")][:1]
    print(i, prop, "CAUGHT" if prop in hits else "missed", hits, f"{time.time()-t:.0f}s", first, flush=True)
    shutil.rmtree(d)
