"""Make a planted bug:  mkseed.py SPEC.py [ID...]   (run by hand)
SPEC.py defines SEEDS = {id: dict(prop, edits=[(file, old, new)...], demo, needs, breaks)}"""
import difflib, json, os, shutil, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def run(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests(repo):
    """how many stable tests fail in a copy of the repository"""
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", repo + "/quantities"], cwd=repo,
            env=dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1"))
    return r


def blame(patch):
    """removed lines that are not of the original repository / number of original lines removed"""
    import re
    f, n, bad, good = None, 0, [], 0
    cache = {}
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            if f not in cache:
                b = run(["git", "blame", "-s", "--root", f], cwd="/repo").stdout.splitlines()
                cache[f] = [x.split()[0].lstrip("^") for x in b]
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and f:
            root = run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo").stdout.split()[0]
            if root.startswith(cache[f][n - 1]) or "5f4c0cc".startswith(cache[f][n - 1][:7]):
                good += 1
            else:
                bad.append(l)
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad, good


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    ids = sys.argv[2:] or list(seeds)
    for i in ids:
        s = seeds[i]
        d = f"/tmp/seedtmp-{i}"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            t = open(p).read()
            assert t.count(old) == 1, (i, f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        patch = run(["git", "diff"], cwd=d).stdout
        out = f"{V}/seeded/{i}"
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"\n'
                                          'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        bad, good = blame(patch)
        if bad or not good:
            print(i, "WARNING lines not original:", bad, "original lines changed:", good)
        t = tests(d)
        a = run(["bash", out + "/demo.sh"], cwd="/repo")
        b = run(["bash", out + "/demo.sh"], cwd=d)
        ok = t.returncode == 0 and a.returncode == 0 and b.returncode != 0
        print(i, "OK" if ok else "BAD", "tests", t.returncode, "demo", a.returncode, b.returncode,
              b.stdout.strip().splitlines()[-1:] if ok else (t.stdout[-900:], a.stdout[-500:], b.stdout[-500:]))
        shutil.rmtree(d)
        sys.stdout.flush()


if __name__ == "__main__":
    main()
