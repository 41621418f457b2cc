"""Worker process: symbolic exploration of tasks (one per line on stdin)."""
import json
import math
import os
import random
import subprocess
import sys
import time
import traceback
from fractions import Fraction

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symq import load  # noqa: E402
sys.path.append(load.Z3_SITE)
import z3  # noqa: E402
import z3.z3util  # noqa: E402,F401
# nothing else of that environment (scipy, say) is there for the package under test
sys.path.remove(load.Z3_SITE)
from symq import alg, core, env as envmod, harness, state, symnp  # noqa: E402


class Replayer:
    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen([sys.executable, "-m", "symq.replay", "--server"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
                                  cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

    def run(self, hid, params, values):
        if self.p is None or self.p.poll() is not None:
            self.start()
        self.p.stdin.write(json.dumps({"harness": hid, "params": params, "values": values}) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.p = None
            return {"failures": [], "diverged": "replay process died", "labels": 0, "obs": [], "error": None}
        return json.loads(line)


NICE = [1.5, 2.0, 3.0, 0.5, 0.75, -1.5, -2.0, 4.0, 0.25, 5.0, -0.5, 1.25, 7.0, 10.0, -3.0, 1.0, 0.0, 6.5]


class Explorer:
    def __init__(self, pq):
        self.pq = pq
        self.np = sys.modules["numpy"]
        self.state = state.State(pq, symnp.SymND)
        self.rep = Replayer()
        self.funcs = {}
        self.watch()

    def watch(self):
        mon = sys.monitoring
        mon.use_tool_id(3, "symq")
        root = os.path.realpath(load.REPO) + "/quantities/"

        def start(code, off):
            if code.co_filename.startswith(root) and self.collect:
                self.funcs[code.co_filename[len(root):-3].replace("/", ".") + "." + code.co_qualname] = 1
                return
            if not code.co_filename.startswith(root):
                return mon.DISABLE
        self.collect = False
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
        self.lines = None
        if os.environ.get("SYMQ_COV"):      # tools/mutate.py: lines reached by each task
            self.lines = {}
            mon.use_tool_id(4, "symqcov")

            def line(code, n):
                if code.co_filename.startswith(root):
                    if not self.collect:
                        return None
                    self.lines["%s:%d" % (code.co_filename[len(root):-3].replace("/", "."), n)] = 1
                return mon.DISABLE
            mon.register_callback(4, mon.events.LINE, line)
            mon.set_events(4, mon.events.LINE)

    # -- models -----------------------------------------------------------------
    def values_of(self, m, inputs):
        out = {}
        for name, kind, v in inputs:
            if kind == "const":
                out[name] = v
                continue
            x = m.eval(v, model_completion=True)
            if kind == "int":
                out[name] = x.as_long()
            elif kind == "fp":
                f = core.fp_float(x)
                out[name] = f if math.isfinite(f) else repr(f)
            else:
                try:
                    f = float(core.z3_frac(x))
                except (OverflowError, ValueError):
                    return None
                out[name] = f
        return out

    def random_model(self, fs, inputs, rnd, tries):
        """try a few simple dyadic assignments by evaluation only"""
        if self.eng.path_uf or any(k == "fp" for _, k, _ in inputs):
            return None
        f = z3.And(fs) if len(fs) != 1 else fs[0]
        if self.eng.roots and any(k[0] == "root" for k in self.eng.roots):
            return None
        for _ in range(tries):
            sub, vals = [], {}
            for name, kind, v in inputs:
                if kind == "const":
                    vals[name] = v
                elif kind == "int":
                    x = rnd.randint(-3, 6)
                    sub.append((v, z3.IntVal(x)))
                    vals[name] = x
                else:
                    x = rnd.choice(NICE)
                    fr = Fraction(x)
                    sub.append((v, z3.Q(fr.numerator, fr.denominator)))
                    vals[name] = x
            r = z3.simplify(z3.substitute(f, *sub)) if sub else z3.simplify(f)
            if z3.is_true(r):
                return vals
        return None

    def find_values(self, fs, inputs, rnd, strong=None):
        """candidate input assignments satisfying fs, nicest first"""
        eng = self.eng
        fs = [f for f in fs if not z3.is_true(f)]
        for extra in ([strong], [None]):
            if extra[0] is None and strong is not None:
                break
            g = fs + [e for e in extra if e is not None]
            v = self.random_model(g, inputs, rnd, 12) if g else self.random_model([z3.BoolVal(True)], inputs, rnd, 1)
            if v is not None:
                yield v
            reals = [x for _, k, x in inputs if k == "real"]
            ints = [x for _, k, x in inputs if k == "int"]
            lim = []
            for x in reals:
                lim += [x <= 100, x >= -100, z3.Or(x == 0, x >= z3.Q(1, 64), x <= z3.Q(-1, 64))]
            lim += [z3.And(x <= 50, x >= -50) for x in ints]
            dy = [z3.IsInt(x * 16) for x in reals]
            for add, ms in ((lim + dy, 1500), (lim, 3000), ([], 6000)):
                if not (reals or ints) and add:
                    continue
                if add is not lim and dy and not reals and add:
                    continue
                s = z3.Solver()
                s.set("timeout", ms)
                for f in g + add:
                    s.add(f)
                eng.queries += 1
                t = time.time()
                r = s.check()
                eng.solver_s += time.time() - t
                if r == z3.sat:
                    vals = self.values_of(s.model(), inputs)
                    if vals is not None:
                        yield vals
                        break
                elif r == z3.unsat and not add:
                    return

    # -- exploration ---------------------------------------------------------------
    def run(self, hid, params, tier, budget, seed):
        h = harness.HARNESSES[hid]
        rnd = random.Random(seed)
        t0 = time.time()
        eng = self.eng = core.Engine(deadline=t0 + budget,
                                     query_ms=20000 if tier == "quick" else 60000)
        core.set_engine(eng)
        pending = [[]]
        R = {"harness": hid, "params": params, "paths": 0, "aborted": 0, "unmodelled": [], "violations": [],
             "unreproduced": [], "undecided": [], "witnesses": 0, "wit_diverged": 0, "mismatch": [],
             "sampled_paths": 0, "complete": True, "vacuous": False, "samples": []}
        wit_budget = 40 if tier == "quick" else 1500
        self.funcs.clear()
        if self.lines is not None:
            self.lines.clear()
            sys.monitoring.restart_events()
        seen_fail = set()
        try:
            while pending:
                if R["paths"] + R["aborted"] >= h.max_paths:
                    R["complete"] = False
                    break
                if len(seen_fail) >= 4:
                    R["complete"] = False
                    break
                prefix = pending.pop()
                alg.ATOMS.clear()
                alg.Atom._n = 0
                core._STORE.clear()
                self.state.restore()
                eng.pending = pending
                eng.start(prefix)
                e = envmod.SymEnv(self.pq, self.np, eng)
                try:
                    self.collect = True
                    try:
                        h.fn(e, **params)
                    finally:
                        self.collect = False
                except core.PathAbort:
                    R["aborted"] += 1
                    e.dead = True
                except envmod.Failure:
                    pass
                except (symnp.ShimError, core.Unliftable) as x:
                    R["unmodelled"].append("%s: %s" % (type(x).__name__, x))
                    e.candidates.append(("unmodelled", None, z3.BoolVal(True)))
                except core.BudgetExceeded:
                    raise
                except Exception as x:
                    e.candidates.append(("exception:" + type(x).__name__, True, z3.BoolVal(True)))
                    self.last_tb = traceback.format_exc(limit=-6)
                finally:
                    eng.active = False
                if not e.dead:
                    R["paths"] += 1
                if eng.path_concretised:
                    R["sampled_paths"] += 1
                pc = list(eng.pc)
                for label, m, neg in e.candidates:
                    if label in seen_fail:
                        continue
                    self.confirm(h, params, label, m, neg, pc, e, R, rnd, seen_fail)
                for fs, case, cut in eng.probes:
                    self.left_out(h, params, fs, case, cut, e, R, rnd, seen_fail)
                if not e.candidates and not e.dead and R["witnesses"] < wit_budget:
                    self.witness(h, params, pc, e, R, rnd, seen_fail)
        except core.BudgetExceeded as x:
            R["complete"] = False
            R["budget"] = str(x)
            eng.active = False
        self.state.restore()
        R.update(queries=eng.queries, solver_s=eng.solver_s, branches=eng.branches,
                 obligations=eng.obligations, trivial=eng.trivial, unknown=eng.unknown[:5],
                 cuts=eng.cuts, concretised=eng.concretised, max_query_s=eng.max_slow,
                 wall=time.time() - t0, functions=sorted(self.funcs))
        if self.lines is not None:
            R["lines"] = list(self.lines)
        R["vacuous"] = R["paths"] == 0 or eng.obligations == 0
        return R

    def confirm(self, h, params, label, m, neg, pc, e, R, rnd, seen_fail):
        tried = 0
        if m is None:
            # solver gave no verdict: look for a concrete failure anyway
            pass
        vals_list = []
        try:
            gen = self.find_values(pc, e.inputs, rnd, neg)
            for v in gen:
                vals_list.append(v)
                if self._try(h, params, label, v, R, seen_fail):
                    return
                tried += 1
            if m is not None and m is not True:
                v = self.values_of(m, e.inputs)
                if v is not None and v not in vals_list and self._try(h, params, label, v, R, seen_fail):
                    return
            for v in self.find_values(pc, e.inputs, rnd, None) if neg is not None else ():
                if self._try(h, params, label, v, R, seen_fail):
                    return
                tried += 1
        except core.BudgetExceeded:
            pass
        rec = {"label": label, "path": len(e.labels), "tried": tried, "values": vals_list[:1]}
        if label.startswith("exception"):
            rec["tb"] = self.last_tb
        if m is None:
            if label != "unmodelled":
                R["undecided"].append(rec)
        else:
            R["unreproduced"].append(rec)

    def left_out(self, h, params, fs, case, cut, e, R, rnd, seen_fail):
        """a case outside the encoding (a zero divisor, say) that the path condition admits: the solver's
        model of it is run on the real code"""
        if cut in seen_fail:
            return
        try:
            for n, v in enumerate(self.find_values(fs, e.inputs, rnd, case)):
                out = self.rep.run(h.id, params, v)
                R["left_out"] = R.get("left_out", 0) + 1
                if out["failures"] and not out["diverged"] and "ZeroDivisionError" not in (out["error"] or ""):
                    R["violations"].append({"harness": h.id, "params": params, "values": v,
                                            "labels": list(dict.fromkeys(out["failures"])), "found_by": cut,
                                            "error": out["error"]})
                    seen_fail.add(cut)
                    return
                if n:
                    return
        except core.BudgetExceeded:
            pass

    def _try(self, h, params, label, v, R, seen_fail):
        for var in [{}] + h.variants:
            p = dict(params)
            p.update(var)
            out = self.rep.run(h.id, p, v)
            if out["failures"] and not out["diverged"]:
                fl = list(dict.fromkeys(out["failures"]))
                if label in fl:
                    fl = [label]
                R["violations"].append({"harness": h.id, "params": p, "values": v, "labels": fl,
                                        "found_by": label, "error": out["error"]})
                seen_fail.add(label)
                return True
        return False

    def witness(self, h, params, pc, e, R, rnd, seen_fail):
        n = 0
        for v in self.find_values(pc, e.inputs, rnd):
            n += 1
            for var in [{}] + h.variants:
                p = dict(params)
                p.update(var)
                out = self.rep.run(h.id, p, v)
                if out["diverged"]:
                    R["wit_diverged"] += 1
                    continue
                if out["failures"]:
                    fl = [f for f in dict.fromkeys(out["failures"])]
                    R["violations"].append({"harness": h.id, "params": p, "values": v, "labels": fl,
                                            "found_by": "path-witness replay", "error": out["error"]})
                    seen_fail.update(fl)
                    continue
                R["witnesses"] += 1
                if not var:
                    self.compare(e, v, out, R)
            if len(R["samples"]) < 2:
                R["samples"].append({"values": v, "labels": e.labels[:4]})
            break
        if n == 0:
            R["wit_diverged"] += 1

    def compare(self, e, v, out, R):
        """encoding validation: symbolic result evaluated on the witness vs the real run"""
        if self.eng.path_uf or self.eng.path_concretised:
            return
        sub = []
        for name, kind, var in e.inputs:
            if kind == "real":
                f = Fraction(v[name])
                sub.append((var, z3.Q(f.numerator, f.denominator)))
            elif kind == "int":
                sub.append((var, z3.IntVal(v[name])))
            elif kind == "fp":
                return
        if any(k[0] == "root" for k in self.eng.roots):
            return
        if len(out["obs"]) != len(e.obs):
            R["mismatch"].append("observations: %d symbolic, %d concrete" % (len(e.obs), len(out["obs"])))
            return
        for (l, x), (l2, re_, im_) in list(zip(e.obs, out["obs"]))[:40]:
            if re_ is None or l != l2:
                continue
            try:
                p = core.lift(x)
            except core.Unliftable:
                continue
            if not isinstance(p, alg.Rat):
                continue
            t = z3.simplify(z3.substitute(p.z3(), *sub)) if sub else z3.simplify(p.z3())
            try:
                a = float(core.z3_frac(t))
            except (ValueError, OverflowError):
                continue
            b = float(re_)
            if abs(a - b) > 1e-6 * (abs(a) + abs(b) + 1e-6):
                R["mismatch"].append("%s: symbolic %r, real %r at %r" % (l, a, b, v))
                return


def main():
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    pq = load.load_symbolic()
    # solver objects of module-level code (none expected) need an engine
    ex = Explorer(pq)
    for line in sys.stdin:
        t = json.loads(line)
        if t["harness"] not in harness.HARNESSES:
            harness.load_all(t["harness"].split(".")[0])
        try:
            r = ex.run(t["harness"], t["params"], t["tier"], t["budget"], t["seed"])
        except BaseException as x:
            r = {"harness": t["harness"], "params": t["params"], "crash": traceback.format_exc()}
        r["idx"] = t["idx"]
        real_out.write(json.dumps(r, default=str) + "\n")
        real_out.flush()


if __name__ == "__main__":
    main()
