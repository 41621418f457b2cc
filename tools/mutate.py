"""Mutation sweep to look for blind spots (run by hand; work dir /tmp/mut).
   mutate.py gen            list mutants of quantities/*.py
   mutate.py tests          which of them pass the repository's tests
   mutate.py cov            lines executed by each task of each check
   mutate.py check [N]      run the tasks that reach each surviving mutant (at most N per mutant)
"""
import ast, copy, json, os, random, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
W = "/tmp/mut"
PY = "/opt/venv/bin/python"
FILES = ["decorators", "dimensionality", "markup", "quantity", "registry", "umath", "uncertainquantity", "unitquantity", "__init__",
         "constants/__init__", "constants/_utils"]
J = int(os.environ.get("MUT_JOBS", "7"))
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult,
       ast.FloorDiv: ast.Div, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def variants(node, parent):
    """replacement nodes for node"""
    c = copy.deepcopy
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        o = type(node.ops[0])
        if o in CMP:
            n = c(node); n.ops = [CMP[o]()]; yield "cmp", n
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        n = c(node); n.op = BIN[type(node.op)](); yield "binop", n
        if not isinstance(node.op, ast.Mod) or not isinstance(node.left, ast.Constant):
            yield "left", c(node.left)
            yield "right", c(node.right)
    if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
        n = c(node); n.op = BIN[type(node.op)](); yield "aug", n
    if isinstance(node, ast.BoolOp):
        n = c(node); n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); yield "boolop", n
        for i in range(len(node.values)):
            n = c(node)
            del n.values[i]
            yield "boolop-drop", n if len(n.values) > 1 else n.values[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        yield "unary", c(node.operand)
    if isinstance(node, ast.Constant) and not isinstance(parent, (ast.Expr, ast.JoinedStr, ast.FormattedValue)):
        if node.value is True or node.value is False:
            yield "const", ast.Constant(not node.value)
        elif isinstance(node.value, (int, float)):
            yield "const", ast.Constant(node.value + 1)
            if node.value not in (0, 1):
                yield "const", ast.Constant(1)
        elif node.value is None:
            pass
        elif isinstance(node.value, str) and len(node.value) <= 3:
            yield "str", ast.Constant("")
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for b in (True, False):
            if isinstance(node, ast.While) and b:
                continue
            n = c(node); n.test = ast.Constant(b); yield "if%s" % b, n
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            n = c(node); del n.keywords[i]; yield "kw", n
        if len(node.args) > 1:
            n = c(node); del n.args[-1]; yield "lastarg", n
            n = c(node); n.args[0], n.args[1] = n.args[1], n.args[0]; yield "swap", n
        if len(node.args) == 1 and not node.keywords:
            yield "call->arg", c(node.args[0])
        if not node.args and isinstance(node.func, ast.Attribute):
            yield "call->obj", c(node.func.value)
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Delete)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield "del", ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, (ast.Tuple,)):
        pass
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        for i in range(len(node.decorator_list)):
            if ast.unparse(node.decorator_list[i]) in ("property", "staticmethod", "classmethod") or \
                    "setter" in ast.unparse(node.decorator_list[i]):
                continue
            n = c(node); del n.decorator_list[i]; yield "decorator", n
    if isinstance(node, ast.Try):
        n = c(node)
        if node.handlers:
            yield "handler-body", ast.If(test=ast.Constant(True), body=c(node.body), orelse=[])
    if isinstance(node, (ast.List, ast.Tuple, ast.Set)) and 1 < len(node.elts) < 9 and isinstance(node.ctx, ast.Load) if isinstance(node, (ast.List, ast.Tuple)) else False:
        for i in range(len(node.elts)):
            n = c(node); del n.elts[i]; yield "elt", n
    if isinstance(node, ast.Starred):
        pass


def stmt_span(stack):
    for n in reversed(stack):
        if isinstance(n, ast.stmt):
            return n
    return None


def gen():
    out = []
    os.makedirs(W + "/m", exist_ok=True)
    for f in FILES:
        p = f"/repo/quantities/{f}.py"
        src = open(p).read()
        tree = ast.parse(src)
        lines = src.splitlines(keepends=True)
        todo = []

        def walk(n, parent, stack):
            for kind, new in variants(n, parent):
                todo.append((n, kind, new, stack_stmt(stack + [n])))
            for ch in ast.iter_child_nodes(n):
                walk(ch, n, stack + [n])

        def stack_stmt(st):
            for x in reversed(st):
                if isinstance(x, ast.stmt):
                    return x
        walk(tree, None, [])
        seen = set()
        for n, kind, new, st in todo:
            class T(ast.NodeTransformer):
                def visit(self, x):
                    if x is n:
                        return ast.copy_location(new, x)
                    return self.generic_visit(x)
            t2 = None
            # replace in a text-preserving way: only the innermost simple statement is unparsed
            if hasattr(n, "lineno"):
                seg = (n.lineno, n.col_offset, n.end_lineno, n.end_col_offset)
                new = ast.fix_missing_locations(ast.copy_location(new, n))
                txt = ast.unparse(new)
                if isinstance(new, ast.expr):
                    txt = "(" + txt + ")"
                else:
                    ind = " " * n.col_offset
                    txt = ("\n" + ind).join(txt.splitlines())
                start = n.lineno
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.decorator_list:
                    start = min(d.lineno for d in n.decorator_list)
                    col = n.col_offset
                else:
                    col = n.col_offset
                bl = src.encode().splitlines(keepends=True)
                a = b"".join(bl[:start - 1]) + bl[start - 1][:col]
                b = bl[n.end_lineno - 1][n.end_col_offset:] + b"".join(bl[n.end_lineno:])
                res = (a + txt.encode() + b).decode()
                try:
                    compile(res, p, "exec")
                except (SyntaxError, ValueError):
                    continue
                if ast.dump(ast.parse(res)) == ast.dump(tree) or res in seen:
                    continue
                seen.add(res)
                i = len(out)
                open(f"{W}/m/{i}.py", "w").write(res)
                old = ast.get_source_segment(src, n) or ""
                out.append({"id": i, "file": f, "kind": kind, "line": st.lineno, "end": st.end_lineno if not isinstance(
                    st, (ast.FunctionDef, ast.ClassDef, ast.If, ast.While, ast.For, ast.Try, ast.With)) else n.end_lineno if not isinstance(n, ast.stmt) else st.lineno,
                    "nline": n.lineno, "old": old[:90], "new": txt[:90]})
    json.dump(out, open(W + "/mutants.json", "w"), indent=0)
    print(len(out))


def copyrepo(d):
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.environ.get("MUT_BASE", "/repo"), d, symlinks=True, ignore=shutil.ignore_patterns(".git", "__pycache__", "build", "doc"))


def tests():
    M = json.load(open(W + "/mutants.json"))
    import queue
    pool = queue.Queue()
    for k in range(J):
        copyrepo(f"{W}/t{k}")
        pool.put(f"{W}/t{k}")

    def one(m):
        d = pool.get()
        p = f"{d}/quantities/{m['file']}.py"
        orig = open(p).read()
        try:
            shutil.copy(f"{W}/m/{m['id']}.py", p)
            try:
                r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", d + "/quantities"], cwd=d,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60,
                                   env=dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1"))
                m["pass"] = r.returncode == 0
            except subprocess.TimeoutExpired:
                m["pass"] = False
        finally:
            open(p, "w").write(orig)
            pool.put(d)
    with ThreadPoolExecutor(J) as ex:
        for i, _ in enumerate(ex.map(one, M)):
            if i % 100 == 0:
                print(i, flush=True)
    json.dump([m for m in M if m["pass"]], open(W + "/alive.json", "w"), indent=0)
    print(sum(m["pass"] for m in M), "of", len(M))


def alltasks(tier="quick"):
    from symq import harness
    T = []
    for k in range(1, 60):
        if not os.path.exists(f"{V}/symq/props/c{k:02d}.py"):
            break
        harness.load_all(f"C{k:02d}")
        for h in harness.HARNESSES.values():
            if h.prop == f"C{k:02d}":
                for p in h.tasks(tier):
                    T.append({"harness": h.id, "params": p, "tier": tier, "budget": 60.0, "seed": 1})
    return T


class Wk:
    def __init__(self, repo, cov=None):
        self.env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1",
                        OPENBLAS_NUM_THREADS="1", SYMQ_REPO=repo)
        if cov:
            self.env["SYMQ_COV"] = cov
        self.p = None

    def run(self, t):
        import threading
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen([PY, "-m", "symq.worker"], cwd=V, env=self.env, text=True, stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        k = threading.Timer(t["budget"] + 30, self.p.kill)
        k.start()
        try:
            self.p.stdin.write(json.dumps(dict(t, idx=0)) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except OSError:
            line = ""
        finally:
            k.cancel()
        if not line:
            self.p = None
            return {"crash": "died"}
        return json.loads(line)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()


def cov():
    T = alltasks()
    print(len(T))
    import queue
    q = queue.Queue()
    for i, t in enumerate(T):
        q.put((i, t))
    res = {}

    def w(k):
        wk = Wk("/repo", "1")
        while True:
            try:
                i, t = q.get_nowait()
            except queue.Empty:
                break
            t0 = time.time()
            r = wk.run(t)
            res[i] = {"lines": r.get("lines", []), "wall": time.time() - t0}
        wk.stop()
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(w, range(J)))
    json.dump([dict(t, **res[i]) for i, t in enumerate(T)], open(W + "/cov.json", "w"))


def check():
    cap = int(sys.argv[2]) if len(sys.argv) > 2 else 60
    src = sys.argv[3] if len(sys.argv) > 3 else W + "/alive.json"
    dst = sys.argv[4] if len(sys.argv) > 4 else W + "/missed.json"
    M = json.load(open(src))
    C = json.load(open(W + "/cov.json"))
    byline = {}
    for i, t in enumerate(C):
        for l in t["lines"]:
            byline.setdefault(l, []).append(i)
    import queue
    pool = queue.Queue()
    for k in range(J):
        copyrepo(f"{W}/c{k}")
        pool.put(f"{W}/c{k}")
    log = open(dst + ".log", "w")

    def one(m):
        d = pool.get()
        p = f"{d}/quantities/{m['file']}.py"
        orig = open(p).read()
        try:
            shutil.copy(f"{W}/m/{m['id']}.py", p)
            mod = m["file"].replace("/", ".")
            ids = set()
            for l in range(m["line"], m["end"] + 1):
                ids.update(byline.get(f"{mod}:{l}", []))
            imp = not ids
            if imp:
                ids = set(range(len(C)))
            rnd = random.Random(m["id"])
            groups = {}
            for i in ids:
                groups.setdefault(C[i]["harness"], []).append(i)
            for g in groups.values():
                rnd.shuffle(g)
            order = []
            gs = list(groups.values())
            rnd.shuffle(gs)
            while any(gs):
                for g in gs:
                    if g:
                        order.append(g.pop())
            m["ntasks"], m["imp"] = len(order), imp
            order = order[:cap]
            wk = Wk(d)
            m["by"] = None
            for i in order:
                t = {k: C[i][k] for k in ("harness", "params", "tier", "seed")}
                r = wk.run(dict(t, budget=30.0))
                if r.get("violations"):
                    m["by"] = t["harness"]
                    break
                if r.get("crash"):
                    m["crash"] = m.get("crash", 0) + 1
                    if m["crash"] > 3:
                        break
                if r.get("unreproduced"):
                    m["unrep"] = m.get("unrep", 0) + 1
                if r.get("mismatch"):
                    m["mism"] = m.get("mism", 0) + 1
            wk.stop()
            log.write(json.dumps(m) + "\n")
            log.flush()
        finally:
            open(p, "w").write(orig)
            pool.put(d)
    with ThreadPoolExecutor(J) as ex:
        list(ex.map(one, M))
    miss = [m for m in M if not m["by"]]
    json.dump(miss, open(dst, "w"), indent=0)
    print(len(miss), "missed of", len(M))


{"gen": gen, "tests": tests, "cov": cov, "check": check}[sys.argv[1]]()
