"""C17 unit strings can never execute code"""
import ast
import builtins
import sys
from symq.harness import harness

# every node class of the Python grammar that can occur below an expression
KINDS = sorted({c for c in vars(ast).values() if isinstance(c, type) and issubclass(c, ast.AST)}, key=lambda c: c.__name__)
SAFE = {"Expression", "Constant", "Num", "Str", "Bytes", "NameConstant", "Ellipsis", "Name", "Load", "BinOp", "UnaryOp", "operator", "unaryop"}
SAFE |= {c.__name__ for c in KINDS if issubclass(c, (ast.operator, ast.unaryop))}

# text of an expression containing the node kind; {0} is a sub-expression
TEXT = {
    "Call": ["{0}(m)", "{0}()", "UnitQuantity({0})", "UnitQuantity('evil', {0})", "CompoundUnit({0})", "{0}(*m)", "{0}(**m)", "{0}(x={0})", "UnitQuantity(name={0})"],
    "Attribute": ["({0}).real", "({0}).__class__", "{0}. units", "({0}).dimensionality", "m._dimensionality", "UnitQuantity. __init__", "m.__class__.__init__"],
    "Subscript": ["{0}[0]", "m[{0}]", "{0}[...]", "m[{0}:1]", "m[:{0}]", "m[0, {0}]", "m[()]"],
    "Slice": ["m[{0}:1]"], "Index": ["m[{0}]"], "ExtSlice": ["m[1:2, {0}]"], "keyword": ["m(x={0})"], "arg": ["lambda x: {0}"], "arguments": ["lambda x={0}: x"],
    "Lambda": ["lambda: {0}", "lambda x: {0}", "(lambda: {0})()", "lambda x={0}: x", "lambda *a: {0}", "lambda **k: {0}"],
    "ListComp": ["[x for x in {0}]", "[{0} for m in m]", "[m\nfor m\nin\n{0}]"], "SetComp": ["{{x for x in {0}}}"], "DictComp": ["{{x: x for x in {0}}}"], "GeneratorExp": ["(x for x in {0})"],
    "comprehension": ["[m for m in m if {0}]"],
    "NamedExpr": ["(m := {0})", "(evil := {0})", "(evil := m) * {0}"],
    "Compare": ["{0} < m", "{0} == m", "m != {0}", "m is {0}", "m is not {0}", "m in {0}", "m not in {0}", "{0} <= m <= m"],
    "Lt": ["{0} < m"], "LtE": ["{0} <= m"], "Gt": ["m > {0}"], "GtE": ["m >= {0}"], "Eq": ["m == {0}"], "NotEq": ["m != {0}"], "Is": ["m is {0}"], "IsNot": ["m is not {0}"], "In": ["m in {0}"],
    "NotIn": ["m not in {0}"], "And": ["m and {0}"], "Or": ["m or {0}"],
    "BoolOp": ["{0} and m", "m or {0}"],
    "IfExp": ["{0} if m else m", "m if {0} else m", "m if m else {0}"],
    "Tuple": ["({0},)", "m, {0}", "()"], "List": ["[{0}]", "[]", "[m, {0}]"], "Set": ["{{{0}}}"], "Dict": ["{{}}", "{{m: {0}}}", "{{{0}: m}}", "{{**{0}}}"],
    "Starred": ["*{0}, m", "[*{0}]"], "JoinedStr": ["f'{{{0}}}'", "f'a'"], "FormattedValue": ["f'{{{0}!r}}'", "f'{{m:{{{0}}}}}'"],
    "Await": ["await {0}"], "Yield": ["(yield {0})", "(yield)"], "YieldFrom": ["(yield from {0})"],
    "statement": ["m = {0}", "m += {0}", "del m", "import os", "from os import {0}", "m; {0}", "assert {0}", "raise {0}", "pass", "def f(): return {0}", "class C: {0}", "for m in m: {0}",
                  "while {0}: m", "with {0}: m", "global m", "if m: {0}", "try:\n  {0}\nexcept: m", "m\n{0}", "return {0}", "@{0}\ndef f(): m", "m: {0}", "print {0}", "exec {0}", "type X = {0}"],
}
WRAP = ["{0}", "m*{0}", "({0})*m", "m**({0})", "-({0})", "1/({0})", "2*({0})**2", "(m/({0}))*s", "+({0})", "kg*(({0})**-1)"]
HARMLESS = ["m", "qa*2", "UnitQuantity", "1", "'m'", "m/s"]


class Recorder:
    """stands in for eval/compile in the registry: records, never runs anything unsafe"""

    def __init__(self, env):
        self.env, self.trees, self.evals = env, [], []
        self.m = sys.modules[env.pq.unit_registry.__class__.__module__]

    def install(self):
        rc, re_ = builtins.compile, builtins.eval
        rec = self

        def compile(src, *a, **k):
            if isinstance(src, ast.AST):
                rec.trees.append(src)
                c = rc(src, *a, **k)
                rec.trees.append((c, src))
                return c
            return rc(src, *a, **k)

        def eval(src, g=None, l=None):
            tree = src
            for t in rec.trees:
                if isinstance(t, tuple) and t[0] is src:
                    tree = t[1]
            if isinstance(tree, str):
                tree = ast.parse(tree.lstrip(" \t"), mode="eval")
            bad = [type(n).__name__ for n in ast.walk(tree) if type(n).__name__ not in SAFE] if isinstance(tree, ast.AST) else []
            rec.evals.append((bad, g, l))
            if bad:
                raise Blocked()
            return re_(src, g, l)
        self.m.__dict__["compile"], self.m.__dict__["eval"] = compile, eval

    def remove(self):
        for n in ("compile", "eval"):
            self.m.__dict__.pop(n, None)


class Blocked(LookupError):
    pass


def refuse(env, texts, label, consumers=False):
    pq = env.pq
    x = env.arr("x", (2,))
    q = pq.Quantity(x, "m")
    sq = env.snap(q)
    before = env.registry()
    rec = Recorder(env)
    rec.install()
    try:
        for t in texts:
            fns = [("parse", lambda: pq.unit_registry[t])]
            if consumers:
                def assign():
                    q.units = t
                fns += [("constructor", lambda: pq.Quantity(x, t)), ("convert", lambda: pq.Quantity(q, t)), ("rescale", lambda: q.rescale(t)), ("assign", assign),
                        ("compound", lambda: pq.CompoundUnit(t)), ("default", lambda: pq.set_default_units(length=t)), ("uncertain", lambda: pq.UncertainQuantity(x, t, x))]
            for lab, fn in fns:
                del rec.evals[:]
                st, v = env.attempt(fn)
                env.check(not any(bad for bad, g, l in rec.evals), "%s:evaluated:%s:%s" % (label, lab, t))
                env.check(st == "exc" and isinstance(v, (LookupError, SyntaxError)), "%s:not-refused:%s:%s" % (label, lab, t))
    finally:
        rec.remove()
    env.unchanged(sq, q, label)
    after = env.registry()
    env.check(set(before) == set(after) and all(before[n] is after[n] for n in before), label + ":bindings")


def text_of(names):
    """a text containing all the given node kinds, or None"""
    t = "m"
    for n in names:
        if n in SAFE:
            if n in ("UnaryOp", "unaryop", "USub"):
                t = "-(%s)" % t
            elif n in ("BinOp", "operator", "Mult"):
                t = "m*(%s)" % t
            continue
        if n not in TEXT:
            return None
        t = "(%s)" % TEXT[n][0].format(t)
    return t


class Node:
    """an AST node of symbolic kind"""

    def __init__(self, env, kind, child):
        self._env, self._kind, self._child = env, kind, child

    @property
    def __class__(self):
        return KINDS[self._env.eng.realise_int(self._env.core.lift(self._kind))]


def sym_isinstance(env):
    def isinstance_(o, classes):
        if type(o) is Node:
            cs = classes
            idx = [i for i, c in enumerate(KINDS) if issubclass(c, cs)]
            r = False
            for i in idx:
                r = (o._kind == i) | r
            return r
        return isinstance(o, classes)
    return isinstance_


@harness("C17", n=[1, 3, 6], thorough={"n": [1, 2, 3, 4, 5, 6, 8, 10]})
def node_kinds(env, n):
    """over trees of nodes of arbitrary (symbolic) kind: whatever is handed to eval contains arithmetic nodes only, and sees no built-ins"""
    ks = [env.int("kind%d" % i, 0, len(KINDS) - 1) for i in range(n)]
    pq = env.pq
    if not env.symbolic:
        names = [KINDS[k].__name__ for k in ks]
        t = text_of(names)
        if t is not None and any(x not in SAFE for x in names):
            refuse(env, [t], "kinds")
        return
    m = sys.modules[pq.unit_registry.__class__.__module__]
    node = None
    nodes = []
    for k in ks:
        node = Node(env, k, node)
        nodes.append(node)
    seen = []

    class Shim:
        def __getattr__(self, a):
            return getattr(ast, a)

        def parse(self, *a, **k):
            return nodes[-1]

        def walk(self, t):
            return iter([x for x in reversed(nodes)])

        def iter_child_nodes(self, t):
            return iter([t._child] if t._child is not None else [])

    def compile_(src, *a, **k):
        return src

    def eval_(src, g=None, l=None):
        seen.append((src, g, l))
        return pq.unit_registry.__class__
    d = m.__dict__
    saved = {k: d[k] for k in ("ast", "isinstance", "compile", "eval") if k in d}
    d.update(ast=Shim(), isinstance=sym_isinstance(env), compile=compile_, eval=eval_)
    try:
        st, v = env.attempt(lambda: pq.unit_registry["m"])
    finally:
        for k in ("ast", "isinstance", "compile", "eval"):
            if k in saved:
                d[k] = saved[k]
            else:
                d.pop(k, None)
    if st == "exc":
        # (another way of walking the tree than this model supports ends here; texts() decides those)
        env.check(not seen, "kinds:evaluated-then-refused")
        env.reach("refused")
        return
    for src, g, l in seen:
        for k in ks:
            ok = False
            for i, c in enumerate(KINDS):
                if c.__name__ in SAFE:
                    ok = (k == i) | ok
            env.check(ok, "kinds:unsafe-node-evaluated")
        env.check(isinstance(g, dict) and g.get("__builtins__", None) == {} and len(g) == 1, "kinds:globals")


@harness("C17", kind=sorted(TEXT), depth=[2], thorough={"depth": [3]})
def texts(env, kind, depth):
    """texts with the construct in every position (nested in arithmetic and in other constructs)"""
    inner = HARMLESS + [t.format("m") for k in sorted(TEXT) for t in TEXT[k][:1] if k != "statement"]
    out = []
    for t in TEXT[kind]:
        for h in HARMLESS:
            b = t.format(h)
            out += [w.format(b) for w in WRAP] if h == "m" or depth > 2 else [b]
        out += [t.format(i) for i in inner]
        if depth > 2:
            out += [t.format("(%s)" % k2.format("(%s)" % i)) for i in inner for ks in TEXT.values() for k2 in ks]
    refuse(env, sorted(set(out)), "text")


@harness("C17", kind=sorted(TEXT))
def consumers(env, kind):
    """no route by which a string reaches the parser evaluates the construct"""
    refuse(env, [t.format("m") for t in TEXT[kind]][:4], "consumer", consumers=True)


@harness("C17", part=[0, 1, 2, 3])
def builtin_names(env, part):
    """no name of the built-in namespace, of the module or of Python's internals is reachable"""
    pq = env.pq
    reg = env.registry()
    m = sys.modules[pq.unit_registry.__class__.__module__]
    names = sorted((set(dir(builtins)) | set(vars(m)) | {"self", "os", "sys", "label", "string", "tree", "valid", "item", "np", "numpy", "pq", "__import__", "exec", "eval", "open"})
                   - set(reg) - {"True", "False", "None", "__debug__", "UnitQuantity", "CompoundUnit"})[part::4]
    for n in names:
        for t in (n, "m*" + n, "(%s)**2" % n):
            st, v = env.attempt(lambda: pq.unit_registry[t])
            if n == "__builtins__":
                env.check(st == "exc" or not v, "name:builtins")
            else:
                env.check(st == "exc" and isinstance(v, (LookupError, SyntaxError)), "name:" + t)


@harness("C17", part=[0])
def only_units(env, part):
    """what names denote: units (and the two unit classes), nothing else"""
    pq = env.pq
    rec = Recorder(env)
    rec.install()
    try:
        pq.unit_registry["m*s"]
        for bad, g, l in rec.evals:
            env.check(isinstance(g, dict) and not g.get("__builtins__", 1), "globals")
            for ns in (g, l if l is not None else {}):
                for k, v in list(ns.items()):
                    if k != "__builtins__":
                        env.check(isinstance(v, pq.UnitQuantity) or v in (pq.UnitQuantity, pq.CompoundUnit), "namespace:" + str(k))
    finally:
        rec.remove()
