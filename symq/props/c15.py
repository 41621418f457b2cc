"""C15 unit strings are parsed as the products they denote"""
from fractions import Fraction
from symq import independent as indep
from symq.harness import harness

CH = 16
FORMS = [("{n}", 1, 0), ("{n}*qa", 1, 1), ("qa*{n}", 1, 1), ("qa/{n}", -1, 1), ("{n}**2", 2, 0), ("{n}^3", 3, 0), ("({n})**-1/qa", -1, -1),
         ("{n}·qa", 1, 1), ("qa**-2*({n}*qa)^2", 2, 0), ("1/{n}", -1, 0), ("qa / {n} * qa", -1, 2), ("{n}*{n}", 2, 0)]


def add(d, n, e):
    r = d.get(n, 0) + e
    if r == 0:
        d.pop(n, None)
    else:
        d[n] = r


@harness("C15", part=list(range(CH)))
def names(env, part):
    """every registered name, symbol and alias, in every syntactic position"""
    pq = env.pq
    env.bases()
    reg = env.registry()
    x = env.arr("x", (1,))
    for n in sorted(reg)[part::CH]:
        u = reg[n]
        if not n.replace("_", "a").isalnum() and n != "%":
            continue
        own = env.dims(u)
        for form, e, ea in FORMS:
            if n in ("qa", "qb", "qa2"):
                continue
            want = {}
            for k, v in own.items():
                add(want, k, v * e)
            if ea:
                add(want, "qa", ea)
            s = form.replace("{n}", n)
            r = pq.unit_registry[s]
            env.same_dims(r, want, "product:" + s)
            env.eq(env.vals(r), [1], "factor:" + s)
        # behaves the same as the unit object
        q = pq.Quantity(x, n)
        env.same_dims(q, own, "constructor:" + n)
        env.eq(env.vals(q), env.vals(x), "constructor:" + n)
        q = q.rescale(n + "**1")
        env.same_dims(q, own, "rescale:" + n)
        env.eq(env.vals(q), env.vals(x), "rescale:" + n)
        if n[0].isalpha() and n[-1].isalpha():
            w = dict(own)
            add(w, "qb", 1)
            for s in (n + ".qb", "qb." + n):
                r = pq.unit_registry[s]
                env.same_dims(r, w, "dot:" + s)
                env.eq(env.vals(r), [1], "dot:" + s)


@harness("C15", part=list(range(CH)))
def adjacent(env, part):
    """every pair of one- and two-letter symbols joined by every product sign; all triples with one-letter symbols"""
    pq = env.pq
    reg = env.registry()
    short = sorted(n for n in reg if len(n) <= 2 and n.isalpha())
    ones = [n for n in short if len(n) == 1]
    mine = short[part::CH]

    def test(s, parts):
        r = pq.unit_registry[s]
        want = {}
        for p, sg in parts:
            for k, v in env.dims(reg[p]).items():
                add(want, k, v * sg)
        got = env.dims(r) if hasattr(r, "dimensionality") else None
        env.check(got == want, "product:" + s)
        env.eq(env.vals(r), [1], "factor:" + s)
    x = env.arr("x", (1,))
    for a in mine:
        for b in short[::3] if len(a) == 2 else short:
            test(a + "." + b, [(a, 1), (b, 1)])
        for b in ones:
            test(a + "·" + b, [(a, 1), (b, 1)])
            test(a + "/" + b, [(a, 1), (b, -1)])
            test(b + "*" + a, [(a, 1), (b, 1)])
            c = ones[(len(a) + ord(b)) % len(ones)]
            test(a + "." + b + "." + c, [(a, 1), (b, 1), (c, 1)])
            test(b + "." + a + "/" + c, [(a, 1), (b, 1), (c, -1)])
        q = pq.Quantity(x, a + "." + ones[0])
        env.eq(env.vals(q), env.vals(x), "constructor")


# expression trees -> (text, factor, dims)
ATOMS = {"qa": (1, {"qa": 1}), "w": (1, {"w": 1}), "wsym": (1, {"w": 1}), "walias": (1, {"w": 1}), "qb": (1, {"qb": 1}), "m": (1, {"meter": 1}),
         "in": (1, {"inch": 1}), "s": (1, {"second": 1}), "%": (1, {"percent": 1}), "as": (1, {"attosecond": 1}), "kilogram": (1, {"kilogram": 1}),
         "2": (2, {}), "0.5": (Fraction(1, 2), {}), "1e3": (1000, {}), "10": (10, {}), "1.": (1, {})}


def mul(a, b, s):
    d = dict(a[1])
    for k, v in b[1].items():
        add(d, k, v * s)
    return (a[0] * b[0] if s > 0 else a[0] / Fraction(b[0]), d)


def powv(a, e):
    f = Fraction(a[0]) ** e if a[0] != 1 else 1
    return f, {k: v * e for k, v in a[1].items() if v * e != 0}


def text_int(env, name, lo, hi):
    return env.choice(name, list(range(lo, hi + 1)))


def atom(env, i, names, pows, pre="f"):
    n = env.choice("%s%d" % (pre, i), names)
    v = ATOMS[n]
    t = n
    p = env.choice("%sp%d" % (pre, i), pows) if n[0].isalpha() or n == "%" else None
    if p == "int":
        e = text_int(env, "%se%d" % (pre, i), -3, 4)
        op = env.choice("%so%d" % (pre, i), ["**", "^"])
        t, v = "%s%s%d" % (t, op, e), powv(v, e)
    elif p == "paren":
        t, v = "(%s)^(%d)" % (t, -2), powv(v, -2)
    elif p == "half":
        t, v = "%s**0.5" % t, powv(v, Fraction(1, 2))
    elif p == "frac":
        t, v = "%s**(1/2)" % t, powv(v, Fraction(1, 2))
    elif p == "stack":
        t, v = "%s**2**3" % t, powv(v, 8)
    elif p == "neg":
        t, v = "%s**-2**2" % t, powv(v, -4)
    return t, v


def build(env, shape, op1=None, small=False):
    """(text, factor, dims) of a solver-chosen expression"""
    ops = ["*", "/"] if small else ["*", "/", "·", "."]
    if shape == "power":
        return atom(env, 0, ["qa", "in", "wsym", "%", "m"], [None, "int", "paren", "half", "frac", "stack", "neg"])
    if shape == "two":
        a = atom(env, 0, ["qa", "walias", "2"] if small else ["qa", "walias", "in", "%", "2"], [None, "paren"] if small else [None, "int"])
        b = atom(env, 1, ["qa", "as", "1e3"] if small else ["qa", "w", "as", "1e3", "%"], [None, "half"])
        op = op1 or env.choice("op", ops + [" * ", " / "])
        if op == "." and not (a[0][-1].isalpha() and b[0][0].isalpha()):
            op = "*"
        return a[0] + op + b[0], mul(a[1], b[1], -1 if "/" in op else 1)
    if shape in ("three", "group", "nested"):
        a = atom(env, 0, ["qa", "m", "0.5"], [None])
        b = atom(env, 1, ["wsym", "qa", "in"], [None, "stack"])
        c = atom(env, 2, ["qb", "qa"] if small else ["qb", "qa", "10"], [None, "paren"])
        o1, o2 = op1 or env.choice("op1", ops), env.choice("op2", ["*", "/"] if shape == "nested" else ops)
        if o1 == "." and not (a[0][-1].isalpha() and b[0][0].isalpha()):
            o1 = "*"
        if o2 == "." and not (b[0][-1].isalpha() and c[0][0].isalpha()):
            o2 = "·"
        if shape == "three":
            return a[0] + o1 + b[0] + o2 + c[0], mul(mul(a[1], b[1], -1 if o1 == "/" else 1), c[1], -1 if o2 == "/" else 1)
        if o1 == ".":
            o1 = "*"
        inner = mul(b[1], c[1], -1 if o2 == "/" else 1)
        if shape == "group":
            return "%s%s(%s%s%s)" % (a[0], o1, b[0], o2, c[0]), mul(a[1], inner, -1 if o1 == "/" else 1)
        e = env.choice("e", [-2, 2])
        return "(%s%s(%s%s%s)^2)**%d" % (a[0], o1, b[0], o2, c[0], e), powv(mul(a[1], powv(inner, 2), -1 if o1 == "/" else 1), e)
    if shape == "four":
        t, v = atom(env, 0, ["qa", "1."], [None])
        for i, names in enumerate((["w", "%"], ["qb", "in"], ["s", "qa"])):
            a = atom(env, i + 1, names, [None])
            op = op1 if op1 and i == 0 else env.choice("op%d" % i, ["*", "/", "."])
            if op == "." and not (t[-1].isalpha() and a[0][0].isalpha()):
                op = "*"
            t, v = t + op + a[0], mul(v, a[1], -1 if op == "/" else 1)
        return t, v
    assert False


def setup(env):
    A, B = env.bases()
    k = env.real("k", pos=True)
    w = env.pq.UnitQuantity("w", k * A / B, symbol="wsym", aliases=["walias"])
    return A, B, w, k


SIZES = {"qa": 1, "qb": 1, "meter": 1, "inch": Fraction(254, 10000), "second": 1, "attosecond": Fraction(1, 10 ** 18), "percent": Fraction(1, 100),
         "kilogram": 1}


def size(env, d, k):
    f, base = 1, {}
    for n, e in d.items():
        ee = int(e) if e == int(e) else float(e)
        if n == "w":
            f = f * k ** ee
            add(base, "qa", e), add(base, "qb", -e)
        else:
            s = SIZES[n]
            if s != 1:
                f = f * float(s) ** ee
            b = {"inch": "meter", "attosecond": "second", "percent": None}.get(n, n)
            if b:
                add(base, b, e)
    return f, base


def obj(env, d, A, B, w):
    r = 1 * env.pq.dimensionless
    for n, e in d.items():
        u = {"qa": A, "qb": B, "w": w}.get(n)
        u = getattr(env.pq, n) if u is None else u
        r = r * u ** (int(e) if e == int(e) else float(e))
    return r


OPS = ["*", "/", "·", "."]


@harness("C15", shape=["power", "two", "three", "group", "nested", "four"], op1=OPS, filt=lambda shape, op1: (shape != "power" or op1 == "*") and (shape not in ("group", "nested") or op1 in "*/"))
def expressions(env, shape, op1):
    """a solver-chosen expression denotes the product and the factor of its parts"""
    A, B, w, k = setup(env)
    t, (f, d) = build(env, shape, op1)
    r = env.pq.unit_registry[t]
    if not hasattr(r, "dimensionality"):
        env.check(not d, "plain-result")
        env.eq([r], [float(f)], "factor")
    else:
        env.same_dims(r, {n: float(e) for n, e in d.items()}, "units")
        env.eq(env.vals(r), [float(f)], "factor")


@harness("C15", shape=["power", "two", "group"], op1=OPS, small=[True], thorough={"shape": ["power", "two", "three", "group", "nested", "four"], "small": [False]}, max_paths=8000,
         filt=lambda shape, op1, small: (shape != "power" or op1 == "*") and (shape not in ("group", "nested") or op1 in "*/"))
def consumers(env, shape, op1, small):
    """a string behaves like the unit product wherever units are accepted"""
    A, B, w, k = setup(env)
    pq = env.pq
    t, (f, d) = build(env, shape, op1, small)
    if not d:
        env.reach("dimensionless")
        return
    d = {n: float(e) for n, e in d.items()}
    x = env.arr("x", (2,))
    fs, base = size(env, d, k)
    bu = obj(env, base, A, B, w)
    if f == 1:
        q = pq.Quantity(x, t)
        env.same_dims(q, d, "constructor")
        env.eq(env.vals(q), env.vals(x), "constructor")
        p = pq.Quantity(x, bu)
        sp = env.snap(p)
        want = [v / fs for v in env.vals(x)]
        for lab, r in (("rescale", p.rescale(t)), ("convert", pq.Quantity(p, t)), ("rescale-units", p.rescale(units=t))):
            env.same_dims(r, d, lab)
            env.eq(env.vals(r), want, lab)
        env.unchanged(sp, p, "operand")
        p = pq.Quantity(1 * x, bu)
        p.units = t
        env.same_dims(p, d, "assigned")
        env.eq(env.vals(p), want, "assigned")
        u = pq.UncertainQuantity(x, t, x * x)
        env.same_dims(u, d, "uncertain")
        env.same_dims(u.uncertainty, d, "uncertain")
    else:
        p = pq.Quantity(1 * x, bu)
        sp = env.snap(p)
        env.raises(ValueError, lambda: pq.Quantity(x, t), "factor-constructor")
        env.raises(ValueError, lambda: p.rescale(t), "factor-rescale")

        def assign():
            p.units = t
        env.raises(ValueError, assign, "factor-assign")
        env.unchanged(sp, p, "refused")
    c = pq.CompoundUnit(t)
    r = pq.Quantity(x, c).rescale(bu)
    env.eq(env.vals(r), [v * fs * float(f) for v in env.vals(x)], "compound")
    env.same_dims(r, base, "compound")


UNKNOWN = ["foo", "M3", "meterz", "KG", "len", "abs", "exec", "print", "sqrt", "pq", "np", "self", "_", "__import__", "mm2", "ee"]


@harness("C15", text=["va", "va*vb", "va**2", "va/vb", "3*va", "(va)", "va*B", "", "%", "1/va", "va^2", "va·vb"], then=["imul", "iadd", "fill", "item", "magnitude", "units", "ipow"])
def parsed_again(env, text, then):
    """the same text denotes the same product whatever was done to what it gave before"""
    pq = env.pq
    reg = pq.registry.unit_registry
    y = 5.0
    text = text.replace("va", "m").replace("vb", "s").replace("B", "kg")
    q = reg[text]
    m0, d0 = list(env.vals(q)), env.dims(q)

    def go():
        t = q
        if then == "imul":
            t *= y
        elif then == "iadd":
            t += 5 * t
        elif then == "fill":
            t.fill(y)
        elif then == "item":
            t[()] = 7 * t
        elif then == "magnitude":
            t.magnitude[...] = 7
        elif then == "units":
            t.units = t.simplified.units
        else:
            t **= 2
    env.attempt(go)
    for r in (reg[text], pq.Quantity(1.0, text) if text[:1] != "3" else reg[text]):
        env.eq(env.vals(r), m0, "again")
        env.same_dims(r, d0, "again")
    env.attempt(go)
    r = pq.Quantity(2.0, "kg") * reg[text]
    env.eq(env.vals(r), [2 * v for v in m0], "again")


@harness("C15", n=UNKNOWN)
def unknown(env, n):
    """an unknown name anywhere in the text is refused, and nothing happens"""
    pq = env.pq
    A, B, w, k = setup(env)
    env.check(n not in env.registry(), "is-unknown")
    s = env.choice("form", ["{n}", "{n}*qa", "qa/{n}", "({n})", "{n}**2", "qa*w/{n}^2", "2*{n}", "-{n}", "qa.{n}", "qa**{n}", "qa+{n}", "0*{n}"]).replace("{n}", n)
    x = env.arr("x", (2,))
    q = pq.Quantity(x, A)
    sn = env.snap(q)
    before = dict(env.registry())
    bad = (LookupError, SyntaxError)

    def assign():
        q.units = s
    for lab, fn in (("parse", lambda: pq.unit_registry[s]), ("constructor", lambda: pq.Quantity(x, s)), ("rescale", lambda: q.rescale(s)),
                    ("assign", assign), ("compound", lambda: pq.CompoundUnit(s)), ("default", lambda: pq.set_default_units(length=s)),
                    ("convert", lambda: pq.Quantity(q, s)), ("uncertain", lambda: pq.UncertainQuantity(x, s, x))):
        env.raises(bad, fn, lab)
    env.unchanged(sn, q, "refused")
    after = env.registry()
    env.check(set(after) == set(before) and all(after[m] is before[m] for m in before), "bindings")


indep.register("C15")
