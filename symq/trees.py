"""Expressions of three operands: every combination of operators and of kinds of operands, against a model that
computes magnitudes, units and variances step by step."""
from symq.harness import harness

CERTAIN = ["q", "p", "s", "u", "n", "d"]
UNCERTAIN = ["uq", "up", "us", "p", "n"]


class Leaves:
    def __init__(self, env, n):
        pq = env.pq
        A, B = env.bases()
        self.env, self.pq, self.n = env, pq, n
        k = {n: env.real(n, lo=0.5, hi=4) for n in ("ka", "kb", "kv")}
        self.units = {"ua": env.unit("ua", k["ka"] * A), "ub": env.unit("ub", k["kb"] * A), "va": env.unit("va", k["kv"] * B)}
        self.size = {"ua": (k["ka"], "A"), "ub": (k["kb"], "A"), "va": (k["kv"], "B")}

    def leaf(self, kind, name):
        """-> operand, model (values, exponents or None for a plain number, variances or None)"""
        env, pq, U = self.env, self.pq, self.units
        if kind == "n":
            v = env.real(name, lo=1, hi=9)
            return v, ([v], None, None)
        if kind == "u":
            return U["ub"], ([1], {"ub": 1}, None)
        if kind == "s":
            v = env.real(name, lo=1, hi=9)
            return pq.Quantity(v, U["va"]), ([v], {"va": 1}, None)
        x = env.arr(name, (self.n,), lo=1, hi=9)
        v = env.vals(x)
        if kind == "d":
            return pq.Quantity(x), (v, {}, None)
        if kind in ("q", "p"):
            n = "ua" if kind == "q" else "ub"
            return pq.Quantity(x, U[n]), (v, {n: 1}, None)
        n = {"uq": "ua", "up": "ub", "us": "va"}[kind]
        s = env.arr("s" + name, (self.n,), lo=0, hi=3)
        return pq.UncertainQuantity(x, U[n], s), (v, {n: 1}, [t * t for t in env.vals(s)])

    def base(self, d):
        r = {}
        for n, e in (d or {}).items():
            b = self.size[n][1]
            r[b] = r.get(b, 0) + e
        return {b: e for b, e in r.items() if e}

    def factor(self, d):
        r = 1
        for n, e in (d or {}).items():
            r = r * self.size[n][0] ** e
        return r

    def model(self, o, a, b):
        """the result, or None when the operation is refused"""
        (v, d, s), (w, e, t) = a, b
        plain = d is None and e is None
        n = max(len(v), len(w))
        v, w = (v * n)[:n], (w * n)[:n]
        un = s is not None or t is not None
        s = ([0] * n if s is None else (s * n)[:n])
        t = ([0] * n if t is None else (t * n)[:n])
        if o in "+-":
            if not plain and self.base(d) != self.base(e):
                return None
            if d is None and e or a[2] is None and b[2] is not None:
                # a number and a quantity of dimensionless kind: in the units of the quantity;
                # a certain and an uncertain quantity: in the units of the uncertain one
                d, f, g = e, (self.factor(d) / self.factor(e) if d != e else 1), 1
            else:
                f, g = 1, (self.factor(e) / self.factor(d) if not plain and e != d else 1)
            sg = 1 if o == "+" else -1
            return [x * f + sg * y * g for x, y in zip(v, w)], (None if plain else dict(e if d is None else d)), ([x * f * f + y * g * g for x, y in zip(s, t)] if un else None)
        sg = 1 if o == "*" else -1
        r = dict(d or {})
        for k, q in (e or {}).items():
            r[k] = r.get(k, 0) + sg * q
        r = {k: q for k, q in r.items() if q}
        if o == "*":
            return [x * y for x, y in zip(v, w)], (None if plain else r), ([p * y * y + q * x * x for x, y, p, q in zip(v, w, s, t)] if un else None)
        for y in w:
            if isinstance(y, (int, float)):
                self.env.assume(y != 0)
            else:
                self.env.assume((y > 0.01) | (y < -0.01))
        return [x / y for x, y in zip(v, w)], (None if plain else r), ([p / (y * y) + q * x * x / y ** 4 for x, y, p, q in zip(v, w, s, t)] if un else None)


def apply(o, a, b):
    return a + b if o == "+" else a - b if o == "-" else a * b if o == "*" else a / b


def tree(env, shape, o1, o2, first, kinds, n):
    c = Leaves(env, n)
    ks = [first] + [env.choice("k%d" % i, kinds) for i in (1, 2)]
    (a, ma), (b, mb), (d, md) = [c.leaf(k, "xyz"[i]) for i, k in enumerate(ks)]
    pq = env.pq
    keep = [(x, env.snap(x)) for x in (a, b, d) if isinstance(x, pq.Quantity)]
    pair = (a, b) if shape == "left" else (b, d)
    m1 = c.model(o1, *((ma, mb) if shape == "left" else (mb, md)))
    label = "%s%s%s" % (shape, o1, o2)
    if m1 is None:
        env.raises(ValueError, lambda: apply(o1, *pair), label + ":inner")
        return
    if m1[1] is None:
        return          # two plain numbers
    r = apply(o1, *pair)
    m = c.model(o2, m1, md) if shape == "left" else c.model(o2, ma, m1)
    go = (lambda: apply(o2, r, d)) if shape == "left" else (lambda: apply(o2, a, r))
    if m is None:
        env.raises(ValueError, go, label + ":outer")
    else:
        q = go()
        v, dims, s = m
        env.klass(q, pq.UncertainQuantity if s is not None else pq.Quantity, label)
        env.same_dims(q, dims, label)
        env.shape(q, () if not any(getattr(x, "shape", ()) for x in (a, b, d)) else (n,), label)
        scale = None if not set(o1 + o2) & set("+-") else [1 + abs(x) + 400 for x in v]
        env.eq(env.vals(q), v, label, scale=scale)
        if s is not None:
            env.same_dims(q.uncertainty, dims, label + ":uncertainty")
            g = env.vals(q.uncertainty)
            env.eq([x * x for x in g], s, label + ":uncertainty")
            for x in g:
                env.check(x >= 0, label + ":sign")
    env.eq(env.vals(r), m1[0], label + ":inner", scale=[1 + abs(x) + 400 for x in m1[0]])
    env.same_dims(r, m1[1], label + ":inner")
    for x, s in keep:
        env.unchanged(s, x, label + ":operand")


def register(prop):
    if prop not in ("C05", "C06", "C19"):
        return
    kinds = UNCERTAIN if prop == "C19" else CERTAIN

    def ok(shape, o1, o2, first):
        add = set(o1 + o2) & set("+-")
        return prop == "C19" or bool(add) == (prop == "C05")

    def expressions(env, shape, o1, o2, first):
        tree(env, shape, o1, o2, first, kinds, 1 if prop == "C19" else 2)
    expressions.__doc__ = "expressions of three operands of any kinds: value, units, class and shape; refused exactly when the dimensions do not agree; operands stay as they were"
    harness(prop, name="expressions", shape=["left", "right"], o1=list("+-*/"), o2=list("+-*/"), first=kinds, filt=ok)(expressions)
