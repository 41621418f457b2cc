"""Nothing depends on how many things there are: the properties again, on products of many units, long texts, deep
definitions, many arguments, many entries."""
from symq.harness import harness

SIGNS = {"over": [1, -2, 3, -1, 2, -3, 1, 1, -1], "under": [-1, -2, -1, -3, -1, -2, -1, -1, -1], "up": [1, 2, 1, 3, 1, 2, 1, 1, 1], "half": [0.5, -1, 1.5, -0.5, 1, -1, -2.5, 1, 2]}


def setup(env, n=9):
    """n units, alternating between two kinds: -> units, size of each"""
    A, B = env.bases()
    us, ks = [], []
    for i in range(n):
        k = env.real("k%d" % i, pos=True) if i % 3 == 0 else (0.5, 2.0, 4.0)[i % 3]
        us.append(env.pq.UnitQuantity("many%s" % "abcdefghijklmnopq"[i], k * (A if i % 2 == 0 else B), symbol="zq%s" % "abcdefghijklmnopq"[i]))
        ks.append(k)
    return A, B, us, ks


def exps(env, kind):
    es = list(SIGNS[kind])
    es[7] = env.int("e7", -3, 3, nonzero=True)
    es[3] = env.int("e3", -3, 3, nonzero=True)
    return es


def product(us, es, order=None):
    r = None
    for i in order or range(len(us)):
        t = us[i] ** es[i]
        r = t if r is None else r * t
    return r


def size(ks, es):
    r = 1
    for k, e in zip(ks, es):
        r = r * k ** e
    return r


def base(es):
    return {"qa": sum(es[0::2]), "qb": sum(es[1::2])}


def want(us, es):
    return {u.name: e for u, e in zip(us, es)}


def conversion(env, kind):
    """a quantity in a product of nine units, converted to base units, to a product of other units and back"""
    pq = env.pq
    A, B, us, ks = setup(env)
    es = exps(env, kind)
    x = env.arr("x", (2,))
    q = pq.Quantity(x, product(us, es))
    d = base(es)
    f = size(ks, es)
    r = q.rescale(A ** d["qa"] * B ** d["qb"])
    env.eq(env.vals(r), [v * f for v in env.vals(x)], "base")
    env.same_dims(r, d, "base")
    t = q.rescale(us[2] ** d["qa"] * us[5] ** d["qb"])
    env.eq(env.vals(t), [v * f / ks[2] ** d["qa"] / ks[5] ** d["qb"] for v in env.vals(x)], "other")
    env.eq(env.vals(t.rescale(q.dimensionality)), env.vals(x), "back")
    env.same_dims(q, want(us, es), "operand")


def algebra(env, kind):
    """products of products of many units: exponents add up"""
    A, B, us, ks = setup(env)
    es = exps(env, kind)
    one, two = product(us[:5], es[:5]).dimensionality, product(us[3:], es[3:]).dimensionality
    w = want(us, es)
    for r, s in ((one * two, 1), (one / two, -1)):
        d = dict(want(us[:5], es[:5]))
        for u, e in list(want(us[3:], es[3:]).items()):
            d[u] = d.get(u, 0) + s * e
        env.same_dims(r, d, "product" if s == 1 else "quotient")
    q = product(us, es).dimensionality
    env.same_dims(q, w, "all")
    env.same_dims(q ** -1, {k: -e for k, e in w.items()}, "inverse")
    env.same_dims(q ** 2, {k: 2 * e for k, e in w.items()}, "square")
    env.same_dims(q.simplified, base(es), "simplified")
    env.same_dims(q / q, {}, "itself")


def sameness(env, kind):
    """products of nine units: equal whatever the order, hash alike, differ when one exponent differs"""
    A, B, us, ks = setup(env)
    es = exps(env, kind)
    d = product(us, es).dimensionality
    for o in ([8, 7, 6, 5, 4, 3, 2, 1, 0], [4, 0, 8, 1, 7, 2, 6, 3, 5]):
        t = product(us, es, o).dimensionality
        env.check(d == t and not (d != t), "order")
        env.check(hash(d) == hash(t), "order-hash")
    for i in range(9):
        f = list(es)
        f[i] = f[i] + 7
        t = product(us, f).dimensionality
        env.check(not (d == t) and d != t, "one-differs:%d" % i)
        if i:
            t = product(us[:i] + us[i + 1:], es[:i] + es[i + 1:]).dimensionality
            env.check(not (d == t) and d != t and not (t == d), "one-less:%d" % i)


def observed(env, how, op):
    """a unit product that has been hashed, compared, shown or looked into, then changed in place, is what it has become"""
    A, B, us, ks = setup(env, 3)
    e, f = env.int("e", -3, 3, nonzero=True), env.int("f", -3, 3, nonzero=True)
    d = (us[0] ** e * us[1] ** 2).dimensionality
    other = us[2].dimensionality ** f
    watch = {"hash": lambda: hash(d), "eq": lambda: d == other, "str": lambda: str(d), "unicode": lambda: d.unicode, "latex": lambda: d.latex, "html": lambda: d.html, "simplified": lambda: d.simplified, "repr": lambda: repr(d),
             "copy": lambda: d.copy(), "power": lambda: d ** 2, "keys": lambda: list(d.items()), "nothing": lambda: None}[how]
    watch()
    w = {us[0].name: e, us[1].name: 2}
    h = d
    if op == "mul":
        h *= other
        w[us[2].name] = f
        ref = (us[2] ** f * us[1] ** 2 * us[0] ** e).dimensionality
    elif op == "div":
        h /= other
        w[us[2].name] = -f
        ref = (us[2] ** -f * us[1] ** 2 * us[0] ** e).dimensionality
    elif op == "pow":
        h **= 3
        w = {k: 3 * v for k, v in w.items()}
        ref = (us[1] ** 6 * us[0] ** (3 * e)).dimensionality
    else:
        h *= us[1].dimensionality ** f
        w[us[1].name] = 2 + f
        ref = (us[1] ** (2 + f) * us[0] ** e).dimensionality
    env.check(h is d, "in-place")
    env.same_dims(d, w, "exponents")
    env.check(d == ref and not (d != ref) and ref == d, "equal")
    env.check(hash(d) == hash(ref), "hash")
    env.same_dims(d.simplified, {"qa": sum(v for k, v in w.items() if k != us[1].name), "qb": w.get(us[1].name, 0)}, "simplified")
    env.same_dims(d ** 2, {k: 2 * v for k, v in w.items()}, "square")
    env.same_dims(d.copy(), w, "copy")
    for s in ("string", "unicode", "latex", "html"):
        env.check(getattr(d, s) == getattr(ref, s) if len(w) < 2 else sorted(getattr(d, s)) == sorted(getattr(ref, s)), "shown:" + s)


def arithmetic(env, kind):
    """multiplying, dividing and raising quantities of many units"""
    pq = env.pq
    A, B, us, ks = setup(env)
    es = exps(env, kind)
    x, y = env.arr("x", (2,)), env.arr("y", (2,), pos=True)
    q, p = pq.Quantity(x, product(us[:5], es[:5])), pq.Quantity(y, product(us[4:], es[4:]))
    X, Y = env.vals(x), env.vals(y)
    w = dict(want(us, es))
    w[us[4].name] = 2 * es[4]
    r = q * p
    env.eq(env.vals(r), [a * b for a, b in zip(X, Y)], "product")
    env.same_dims(r, w, "product")
    w = {u.name: (es[i] if i < 4 else -es[i] if i > 4 else 0) for i, u in enumerate(us)}
    r = q / p
    env.eq(env.vals(r), [a / b for a, b in zip(X, Y)], "quotient")
    env.same_dims(r, w, "quotient")
    r = (q * p) ** 2
    env.eq(env.vals(r), [(a * b) ** 2 for a, b in zip(X, Y)], "power")
    r = q
    for i in range(9):          # a long chain of single steps
        r = r * us[i] if i % 2 else r / us[i]
    w = {u.name: (es[i] if i < 5 else 0) + (1 if i % 2 else -1) for i, u in enumerate(us)}
    env.eq(env.vals(r), X, "chain")
    env.same_dims(r, w, "chain")


def addition(env, kind):
    """adding and comparing quantities of many units given in another order and in other units"""
    pq = env.pq
    A, B, us, ks = setup(env)
    es = exps(env, kind)
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    d = base(es)
    q = pq.Quantity(x, product(us, es))
    X, Y = env.vals(x), env.vals(y)
    p = pq.Quantity(y, product(us, es, [8, 3, 1, 0, 7, 5, 4, 6, 2]))
    r = q + p
    env.eq(env.vals(r), [a + b for a, b in zip(X, Y)], "same")
    env.same_dims(r, want(us, es), "same")
    f = size(ks, es)
    p = pq.Quantity(y, A ** d["qa"] * B ** d["qb"])
    r = q - p
    env.eq(env.vals(r), [a - b / f for a, b in zip(X, Y)], "other", scale=[env.absum(a, b / f) for a, b in zip(X, Y)])
    env.same_dims(r, want(us, es), "other")


def shown(env, kind):
    """products of nine units are shown with all of them"""
    from symq.props.c28 import check
    A, B, us, ks = setup(env)
    es = list(SIGNS[kind])
    es[7] = env.choice("e7", [1, -1, 2, -2, 0.5, -12])
    d = product(us, es).dimensionality
    check(env, d, list(zip(us, es)), [False, True], "many")
    sub = env.choice("n", [4, 5, 6, 7, 8])
    check(env, product(us[:sub], es[:sub]).dimensionality, list(zip(us[:sub], es[:sub])), [False], "some")


def reading(env, kind):
    """the text of a product of nine units reads back as that product"""
    pq = env.pq
    A, B, us, ks = setup(env)
    es = list(SIGNS[kind])
    es[7] = env.choice("e7", [1, -1, 2, -2, 0.5, -12])
    d = product(us, es).dimensionality
    for text in (d.string, str(d)):
        r = pq.unit_registry[text]
        env.same_dims(r, want(us, es), "units")
        env.eq(env.vals(r), [1], "factor")
    x = env.arr("x", (2,))
    q = pq.Quantity(x, d)
    r = q.rescale(d.string)
    env.eq(env.vals(r), env.vals(x), "rescale")
    env.same_dims(r, want(us, es), "rescale")


TEXTS = {
    "factors": ("zqa*zqb*zqc*zqd*zqe*zqf*zqg*zqh*zqi*zqa*zqb*zqc", [2, 2, 2, 1, 1, 1, 1, 1, 1]),
    "divided": ("zqa/zqb/zqc/zqd/zqe/zqf/zqg/zqh/zqi", [1, -1, -1, -1, -1, -1, -1, -1, -1]),
    "mixed": ("zqa*zqb/zqc*zqd/zqe*zqf/zqg*zqh/zqi", [1, 1, -1, 1, -1, 1, -1, 1, -1]),
    "nested": ("zqa/(zqb/(zqc/(zqd/(zqe/(zqf/(zqg/(zqh/zqi)))))))", [1, -1, 1, -1, 1, -1, 1, -1, 1]),
    "powers": ("((((zqa**2*zqb)^2/zqc)**2*zqd)**-1*zqe)^2", [-16, -8, 4, -2, 2, 0, 0, 0, 0]),
    "dots": ("zqa·zqb·zqc·zqd·zqe·zqf·zqg·zqh·zqi", [1] * 9),
    "carets": ("zqa^2*zqb^3*zqc^-1*zqd^4*zqe^5*zqf^-6*zqg^7*zqh^8*zqi^9", [2, 3, -1, 4, 5, -6, 7, 8, 9]),
    "stars": ("zqa**2*zqb**3*zqc**-1*zqd**4*zqe**5*zqf**-6*zqg**7*zqh**8*zqi**9", [2, 3, -1, 4, 5, -6, 7, 8, 9]),
    "both": ("zqa^2*zqb**3*zqc^-1*zqd**4*zqe^5*zqf**-6*zqg^7*zqh**8*zqi^9", [2, 3, -1, 4, 5, -6, 7, 8, 9]),
    "spaces": ("zqa *  zqb * zqc * zqd / zqe / zqf * zqg * zqh / zqi", [1, 1, 1, 1, -1, -1, 1, 1, -1]),
    "brackets": ("((((((zqa))))))*(((zqb)))/((((zqc))))", [1, 1, -1, 0, 0, 0, 0, 0, 0]),
}


def parsing(env, text):
    """long texts"""
    pq = env.pq
    A, B, us, ks = setup(env)
    s, es = TEXTS[text]
    w = {u.name: e for u, e in zip(us, es) if e}
    for _ in range(2):
        r = pq.unit_registry[s]
        env.same_dims(r, w, "units")
        env.eq(env.vals(r), [1], "factor")
    x = env.arr("x", (2,))
    q = pq.Quantity(x, s)
    env.same_dims(q, w, "constructor")
    env.eq(env.vals(q), env.vals(x), "constructor")
    d = base(es)
    r = q.rescale(A ** d["qa"] * B ** d["qb"])
    env.eq(env.vals(r), [v * size(ks, es) for v in env.vals(x)], "value")


def definitions(env, depth):
    """a chain of definitions, each unit a multiple of the one before"""
    pq = env.pq
    A, B = env.bases()
    f, u, us, fs = 1, A, [A], [1]
    for i in range(depth):
        k = env.real("k%d" % i, pos=True) if i % 4 == 0 else 2.0
        u = pq.UnitQuantity("chaix%s" % "abcdefghijklmnopqrstuvwxyz"[i], k * u)
        f = f * k
        us.append(u)
        fs.append(f)
    x = env.arr("x", (2,))
    for i, j in ((depth, 0), (0, depth), (depth, 1), (depth - 1, 2), (depth // 2, depth)):
        r = pq.Quantity(x, us[i]).rescale(us[j])
        env.eq(env.vals(r), [v * fs[i] / fs[j] for v in env.vals(x)], "conversion")
        env.same_dims(r, {us[j].name: 1}, "conversion")
    r = pq.Quantity(x, us[depth] ** 2).simplified
    env.eq(env.vals(r), [v * f * f for v in env.vals(x)], "simplified")
    env.same_dims(r, {"qa": 2}, "simplified")


def aliases(env, n):
    """a unit of many names: each of them is the unit, none can be given away"""
    pq = env.pq
    A, B = env.bases()
    k, l = env.real("k", pos=True), env.real("l", pos=True)
    names = ["al%s%s" % (a, b) for a in "abcdef" for b in "abcdefgh"][:n]
    u = pq.UnitQuantity("manynames", k * A, symbol="mn", aliases=names)
    for i, a in enumerate(["manynames", "mn"] + names):
        env.check(pq.unit_registry[a] is u, "denotes:%d" % i)
        env.raises(KeyError, lambda: pq.UnitQuantity(a, l * B), "other:%d" % i)
        env.raises(KeyError, lambda: pq.UnitQuantity("fresh%s" % "abcdefghij"[i % 10], l * B, aliases=names[:i] + [a]), "alias:%d" % i)
        env.check(pq.unit_registry[a] is u, "still:%d" % i)


def preferences(env, at, n):
    """a long list of preferred units: the first that fits, wherever it is"""
    pq = env.pq
    A, B = env.bases()
    m = __import__("sys").modules[pq.Quantity.__module__]
    k, l = env.real("k", pos=True), env.real("l", pos=True)
    u, t = env.unit("prefd", k * A), env.unit("prefe", l * A)
    m.PREFERRED = [B ** (i + 1) for i in range(n)]
    m.PREFERRED.insert(n if at == "last" else n - 3, u)
    m.PREFERRED.append(A)
    x = env.arr("x", (2,))
    q = pq.Quantity(x, t)
    for r in (q.rescale_preferred(), q.rescale()):
        env.eq(env.vals(r), [v * l / k for v in env.vals(x)], "value")
        env.same_dims(r, {"prefd": 1}, "unit")


def results(env, n, nargs):
    """wrapped functions of many arguments and many results"""
    pq = env.pq
    A, B, us, ks = setup(env)
    xs = [env.arr("x%d" % i, (1,)) for i in range(nargs)]
    qs = [pq.Quantity(x, us[i]) for i, x in enumerate(xs)]
    ys = [env.arr("y%d" % i, (1,)) for i in range(n)]
    seen = []

    def base(*a, **k):
        """doc"""
        seen.append((a, k))
        return tuple(ys)
    w = pq.decorators.quantitizer(base, lambda *a, **k: tuple(pq.Quantity(1.0, us[i]) for i in range(n)))
    for nkw in (0, nargs // 2, nargs):
        r = w(*qs[:nargs - nkw], **{"arg%d" % i: q for i, q in enumerate(qs) if i >= nargs - nkw})
        a, k = seen.pop()
        for i, x in enumerate(xs):
            g = a[i] if i < nargs - nkw else k["arg%d" % i]
            env.check(not isinstance(g, pq.Quantity), "plain:%d" % i)
            env.eq(env.vals(g), [v * ks[i] for v in env.vals(x)], "argument:%d" % i)
        env.check(isinstance(r, tuple) and len(r) == n, "number")
        for i, g in enumerate(r):
            env.check(isinstance(g, pq.Quantity), "quantity:%d" % i)
            env.same_dims(g, {us[i].name: 1}, "result:%d" % i)
            env.eq(env.vals(g), [v / ks[i] for v in env.vals(ys[i])], "result:%d" % i)


def uncertainties(env, n):
    """sums and products of many uncertain quantities"""
    pq = env.pq
    A, B = env.bases()
    k = env.real("k", pos=True)
    u = env.unit("uu", k * A)
    x, s = [env.real("x%d" % i, pos=True) for i in range(3)], [env.real("s%d" % i, pos=True) for i in range(3)]
    r = pq.UncertainQuantity(x[0], A, s[0])
    v, w = x[0], s[0] ** 2
    for i in range(1, n):
        j = i % 3
        r = r + pq.UncertainQuantity(x[j], u, s[j])
        v, w = v + x[j] * k, w + (s[j] * k) ** 2
    env.eq(env.vals(r), [v], "sum")
    env.eq([t ** 2 for t in env.vals(r.uncertainty)], [w], "sum-uncertainty")
    env.same_dims(r, {"qa": 1}, "sum")


def exponents(env, prop, shape, at, odd):
    """arrays of many exponents: the same everywhere, or refused wherever the one that differs stands"""
    pq, np = env.pq, env.np
    A, B = env.bases()
    n = 1
    for i in shape:
        n *= i
    u = env.unit("ue", env.real("k", pos=True) * A)
    x = env.arr("x", (2,), pos=True)
    X = [env.vals(x)[i % 2] for i in range(n)]
    mag = np.array([env.vals(x)[i % 2] for i in range(n)]).reshape(tuple(shape))
    e = [2.0] * n
    if at is not None:
        e[{"first": 0, "second": 1, "middle": n // 2, "near": n - 2, "last": n - 1}[at]] = odd
    e = np.array(e).reshape(tuple(shape))
    if prop == "C19":
        q = pq.UncertainQuantity(mag, u, mag)
    else:
        q = pq.Quantity(mag, u)
    go = {"C06": lambda: q ** e, "C07": lambda: q.__ipow__(e), "C09": lambda: np.power(q, e), "C19": lambda: q ** e}[prop]
    if at is not None:
        env.raises(ValueError, go, "refused")
        env.eq(env.vals(q), X, "operand")
        env.same_dims(q, {"ue": 1}, "operand")
        return
    r = go()
    env.shape(r, shape, "shape")
    env.eq(env.vals(r), [v ** 2 for v in X], "value")
    env.same_dims(r, {"ue": 2}, "units")
    if prop == "C19":
        env.shape(r.uncertainty, shape, "uncertainty")
        env.eq(env.vals(r.uncertainty), [2 * v * v for v in X], "uncertainty")


def register(prop):
    if prop in ("C06", "C07", "C09", "C19"):
        def long_exponents(env, shape, at, odd):
            exponents(env, prop, shape, at, odd)
        long_exponents.__doc__ = exponents.__doc__
        harness(prop, name="long_exponents", shape=[(3,), (20,), (5, 7), (300,)], at=[None, "first", "second", "middle", "near", "last"], odd=[3.0, 2.5, 0.0], filt=lambda shape, at, odd: at is not None or odd == 3.0)(long_exponents)
    kinds = list(SIGNS)
    table = {"C01": [("many_units", conversion, {"kind": kinds})], "C03": [("many_units", algebra, {"kind": kinds}), ("observed", observed, {"how": ["hash", "eq", "str", "simplified", "repr", "copy", "power", "keys"], "op": ["mul", "div", "pow", "again"]})],
             "C04": [("many_units", sameness, {"kind": kinds}), ("observed", observed, {"how": ["hash", "eq", "str", "simplified", "nothing"], "op": ["mul", "div", "pow", "again"]})],
             "C05": [("many_units", addition, {"kind": kinds})], "C06": [("many_units", arithmetic, {"kind": kinds})],
             "C28": [("many_units", shown, {"kind": kinds}), ("observed", observed, {"how": ["str", "unicode", "latex", "html", "repr", "hash"], "op": ["mul", "div", "pow", "again"]})],
             "C16": [("many_units", reading, {"kind": kinds})], "C15": [("long_text", parsing, {"text": list(TEXTS)})],
             "C14": [("deep_definitions", definitions, {"depth": [8, 14, 20]})], "C18": [("many_names", aliases, {"n": [12, 40]})],
             "C23": [("long_list", preferences, {"at": ["last", "near"], "n": [9, 17, 30]})], "C29": [("many_results", results, {"n": [5, 8], "nargs": [6, 9]})],
             "C19": [("many_terms", uncertainties, {"n": [6]})]}
    for name, fn, params in table.get(prop, []):
        harness(prop, name=name, **params)(fn)
