"""Run harnesses concretely, on the untouched package and numpy.

    python -m symq.replay --server          JSON requests on stdin
    python -m symq.replay FILE.json         reproduce one recorded violation
"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from symq import load, harness, env as envmod, state  # noqa: E402


def num(v):
    if isinstance(v, str):
        return float(v)
    return v


class Runner:
    def __init__(self):
        self.pq = load.load_plain()
        import numpy
        self.np = numpy
        self.state = state.State(self.pq, numpy.ndarray)

    def run(self, hid, params, values):
        h = harness.HARNESSES[hid]
        self.state.restore()
        e = envmod.ConcEnv(self.pq, self.np, {k: num(v) for k, v in values.items()})
        out = {"diverged": None, "error": None}
        try:
            with self.np.errstate(all="ignore"):
                h.fn(e, **params)
        except envmod.Diverged as x:
            out["diverged"] = str(x)
        except envmod.Failure:
            pass
        except Exception as x:
            e.failures.append("exception:" + type(x).__name__)
            out["error"] = traceback.format_exc(limit=-5)
        finally:
            self.state.restore()
        out["failures"] = e.failures
        out["labels"] = len(e.labels)
        obs = []
        for l, x in e.obs:
            try:
                c = complex(x)
                obs.append([l, repr(c.real), repr(c.imag)])
            except (TypeError, ValueError):
                obs.append([l, None, None])
        out["obs"] = obs
        return out


def server():
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    r = Runner()
    for line in sys.stdin:
        q = json.loads(line)
        harness.load_all(q["harness"].split(".")[0]) if q["harness"] not in harness.HARNESSES else None
        try:
            res = r.run(q["harness"], q["params"], q["values"])
        except BaseException as x:
            res = {"failures": [], "diverged": "replay crashed: %r" % x, "error": traceback.format_exc(),
                   "labels": 0, "obs": []}
        real_out.write(json.dumps(res) + "\n")
        real_out.flush()


def main():
    if sys.argv[1] == "--server":
        return server()
    rec = json.load(open(sys.argv[1]))
    harness.load_all(rec["harness"].split(".")[0])
    res = Runner().run(rec["harness"], rec["params"], rec["values"])
    print("harness :", rec["harness"], rec["params"])
    print("inputs  :", rec["values"])
    if res["error"]:
        print(res["error"])
    if res["failures"]:
        print("REPRODUCED:", ", ".join(dict.fromkeys(res["failures"])))
        return 1
    print("not reproduced", res["diverged"] or "")
    return 0


if __name__ == "__main__":
    sys.exit(main())
