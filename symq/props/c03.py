"""C03 unit exponents obey the algebra of products and powers"""
import operator as op
from symq import independent as indep
from symq.harness import harness

OPS = {"mul": (op.mul, 1, False), "imul": (op.imul, 1, True), "div": (op.truediv, -1, False), "idiv": (op.itruediv, -1, True)}


def _units(env):
    A, B = env.bases()
    return [env.unit("u1", env.real("k1", pos=True) * A), env.unit("u2", env.real("k2", pos=True) * B), A]


def _dim(env, us, es):
    """unit product with (possibly symbolic) exponents, through the public interface"""
    D = env.pq.dimensionality.Dimensionality
    d = D()
    for u, e in zip(us, es):
        if e is None:
            continue
        d = d * (u.dimensionality ** e)
    return d


def _same(env, d, us, es, label):
    env.check(type(d) is env.pq.dimensionality.Dimensionality, label + ":class")
    env.same_dims(d, {u.name: e for u, e in zip(us, es) if e is not None}, label)


def _plus(a, b, s=1):
    out = []
    for x, y in zip(a, b):
        if x is None and y is None:
            out.append(None)
        else:
            out.append((0 if x is None else x) + s * (0 if y is None else y))
    return out


@harness("C03", o=sorted(OPS), n=[1, 2, 3], thorough={"n": [1, 2, 3]})
def product(env, o, n):
    """d1*d2, d1/d2 and in-place: exponents (symbolic ints) add / subtract; zeros vanish; operand unchanged"""
    us = _units(env)[:n]
    lo, hi = (-30, 30) if n < 3 else (-2, 2)
    e1 = [env.int("e%d" % i, lo, hi) for i in range(n)]
    e2 = [env.int("f%d" % i, lo, hi) for i in range(n)]
    d1, d2 = _dim(env, us, e1), _dim(env, us, e2)
    _same(env, d1, us, e1, "power")
    f, s, inplace = OPS[o]
    keep = d1
    r = f(d1, d2)
    _same(env, r, us, _plus(e1, e2, s), o)
    _same(env, d2, us, e2, "right-operand")
    if inplace:
        env.check(r is keep, "in-place-identity")
    else:
        _same(env, d1, us, e1, "left-operand")
        # the result is independent of the operands
        r *= us[0].dimensionality
        _same(env, d1, us, e1, "left-aliased")
        _same(env, d2, us, e2, "right-aliased")


@harness("C03", o=sorted(OPS), n=[1, 2])
def fractional(env, o, n):
    """products and quotients of units with real exponents (decimal and half-integer powers)"""
    us = _units(env)[:n]
    e1 = [env.real("e%d" % i, lo=-3, hi=3) for i in range(n)]
    e2 = [env.real("f%d" % i, lo=-3, hi=3) for i in range(n)]
    d1, d2 = _dim(env, us, e1), _dim(env, us, e2)
    f, s, inplace = OPS[o]
    r = f(d1, d2)
    _same(env, r, us, _plus(e1, e2, s), o)
    _same(env, d2, us, e2, "right-operand")
    if not inplace:
        _same(env, d1, us, e1, "left-operand")


@harness("C03", o=sorted(OPS), n=[1, 2, 3])
def itself(env, o, n):
    """a unit product multiplied with or divided by itself, also in place"""
    us = _units(env)[:n]
    e = [env.int("e%d" % i, -3, 3) for i in range(n)]
    d = _dim(env, us, e)
    f, s, inplace = OPS[o]
    r = f(d, d)
    _same(env, r, us, _plus(e, e, s), o)
    env.check((r is d) == inplace, "identity")
    if not inplace:
        _same(env, d, us, e, "operand")


@harness("C03", o=["pow", "ipow"], kind=["int", "half", "float"])
def power(env, o, kind):
    """(u1**e1 * u2**e2)**p: exponents multiply; p = 0 gives dimensionless"""
    us = _units(env)[:2]
    e = [env.int("e1", -9, 9), env.int("e2", -9, 9)]
    if kind == "int":
        p = env.int("p", -9, 9)
    elif kind == "half":
        p = env.choice("p", [0.5, -0.5, 1.5, 2.0, 0.0, -1.0])
    else:
        p = env.real("p", lo=-5, hi=5)
    d = _dim(env, us, e)
    keep = d
    if o == "pow":
        r = d ** p
        _same(env, d, us, e, "operand")
    else:
        d **= p
        r = d
        env.check(r is keep, "in-place-identity")
    _same(env, r, us, [x * p for x in e], o)


@harness("C03", bad=["array", "list", "dimensionality", "string"])
def power_refused(env, bad):
    """non-scalar exponents are refused with TypeError and change nothing"""
    us = _units(env)[:2]
    e = [env.int("e1", -3, 3), env.int("e2", -3, 3)]
    d = _dim(env, us, e)
    p = {"array": env.np.array([1.0, 2.0]), "list": [2], "dimensionality": us[0].dimensionality, "string": None}[bad]
    if p is None:
        return env.check(True, "n/a")
    env.raises(TypeError, lambda: d ** p, "pow")
    env.raises(TypeError, lambda: op.ipow(d, p), "ipow")
    _same(env, d, us, e, "unchanged")


@harness("C03")
def laws(env):
    """commutative, associative, inverse, distributive laws over symbolic exponents"""
    us = _units(env)
    E = [[env.int("e%d%d" % (i, j), -2, 2) if (i + j) % 3 else None for j in range(3)] for i in range(3)]
    d = [_dim(env, us, e) for e in E]
    a, b, c = d
    env.same_dims(a * b, env.dims(b * a), "commutative")
    env.same_dims((a * b) * c, env.dims(a * (b * c)), "associative")
    env.same_dims(a / a, {}, "inverse")
    env.same_dims((a * b) / b, env.dims(a), "cancel")
    env.same_dims((a * b) ** 2, env.dims(a ** 2 * b ** 2), "distributive")
    env.same_dims((a ** -1) ** -1, env.dims(a), "double-inverse")
    env.same_dims(a ** -1, env.dims(env.pq.dimensionality.Dimensionality() / a), "reciprocal")


@harness("C03", o=["add", "sub", "iadd", "isub"])
def additive(env, o):
    """d1 + d2 and d1 - d2: equal operands only, result the same units; ValueError otherwise; operands unchanged"""
    us = _units(env)[:2]
    e1 = [env.int("e1", -2, 2), env.int("e2", -2, 2)]
    e2 = [env.int("f1", -2, 2), env.int("f2", -2, 2)]
    d1, d2 = _dim(env, us, e1), _dim(env, us, e2)
    keep = d1
    same = bool(e1[0] == e2[0]) and bool(e1[1] == e2[1])
    f = getattr(op, o)
    if same:
        r = f(d1, d2)
        _same(env, r, us, e1, o)
        if o[0] != "i":
            r *= us[0].dimensionality
            _same(env, d1, us, e1, "aliased")
            _same(env, d2, us, e2, "aliased")
    else:
        env.raises(ValueError, lambda: f(d1, d2), o)
        _same(env, d1, us, e1, "left-unchanged")
        _same(env, d2, us, e2, "right-unchanged")
    env.check(keep is d1 or o[0] != "i", "identity")


@harness("C03", o=["mul", "truediv", "add", "sub", "imul", "itruediv", "iadd", "isub"], kind=["number", "unit", "dict"])
def wrong_operand(env, o, kind):
    """combining a unit product with something else is refused with TypeError"""
    us = _units(env)[:1]
    e = [env.int("e1", -3, 3)]
    d = _dim(env, us, e)
    x = {"number": 2.0, "unit": us[0], "dict": dict(us[0].dimensionality)}[kind]
    if kind == "unit" and o in ("mul", "truediv", "add", "sub", "imul", "itruediv", "iadd", "isub"):
        st, r = env.attempt(lambda: d._nothing if False else getattr(env.pq.dimensionality.Dimensionality, "__%s__" % o)(d, x))
    else:
        st, r = env.attempt(lambda: getattr(env.pq.dimensionality.Dimensionality, "__%s__" % o)(d, x))
    env.check(st == "exc" and isinstance(r, TypeError), o + ":refused")
    _same(env, d, us, e, "unchanged")


@harness("C03")
def handed_out(env):
    """the unit product handed out by a quantity is a copy: changing it does not change the quantity"""
    us = _units(env)[:2]
    e = env.int("e", -3, 3, nonzero=True)
    q = env.pq.Quantity(env.arr("x", (2,)), us[0] ** e * us[1])
    d = q.dimensionality
    c = d.copy()
    d *= us[1].dimensionality
    c **= 3
    env.same_dims(q, {"u1": e, "u2": 1}, "quantity")
    env.same_dims(d, {"u1": e, "u2": 2}, "d")
    env.same_dims(c, {"u1": 3 * e, "u2": 3}, "c")
    v = q[0:1]
    p = env.pq.Quantity(env.arr("y", (2,)), q.dimensionality)
    p *= us[0]
    env.same_dims(q, {"u1": e, "u2": 1}, "source-of-copy")
    env.same_dims(p, {"u1": e + 1, "u2": 1}, "copy")
    env.same_dims(v, {"u1": e, "u2": 1}, "view")


@harness("C03")
def quantity_level(env):
    """units of (q1*q2/q3)**p via quantities agree with exponent arithmetic"""
    us = _units(env)[:2]
    e = [env.int("e%d" % i, -2, 2) for i in range(3)]
    p = env.int("p", -2, 3)
    qs = [env.pq.Quantity(env.npreal("x%d" % i, pos=True), us[i % 2] ** e[i]) for i in range(3)]
    r = (qs[0] * qs[1] / qs[2]) ** p
    env.same_dims(r, {"u1": (e[0] - e[2]) * p, "u2": e[1] * p}, "dims")


SEQ = ["a*b", "a/b", "a*=b", "a/=b", "a**2", "a**=-1", "a**1", "a**0", "a+a", "copy", "simplified", "sqrt"]


@harness("C03", start=["unit", "product", "handed-out"], first=SEQ, n=[3], thorough={"n": [3, 4]}, max_paths=20000)
def sequences(env, start, first, n):
    """histories of in-place and out-of-place operations over live unit products: every object keeps the exponents
    its own operations gave it"""
    A, B = env.bases()
    D = env.pq.dimensionality.Dimensionality
    e = env.int("e", -3, 3, nonzero=True)
    q = None
    if start == "unit":
        live = [(A ** e).dimensionality, B.dimensionality]
        model = [{"qa": e}, {"qb": 1}]
    elif start == "product":
        live = [(A / B ** 2).dimensionality, D() * (B.dimensionality ** e)]
        model = [{"qa": 1, "qb": -2}, {"qb": e}]
    else:
        q = env.pq.Quantity(env.real("x"), A * B ** e)
        live = [q.dimensionality, q.dimensionality]
        model = [{"qa": 1, "qb": e}, {"qa": 1, "qb": e}]
    for k in range(n):
        o = env.choice("o%d" % k, SEQ if k < n - 1 else SEQ[:6]) if k else first
        # a: the newest or the first object, b: the second
        i = -1 if k else 0
        j = 1 if k != 1 else 0
        a, m, b, w = live[i], model[i], live[j], model[j]
        if o in ("a*b", "a/b", "a*=b", "a/=b"):
            s = 1 if "*" in o else -1
            nm = env.mul_dims(m, w, s)
            if "=" in o:
                was = a
                if s == 1:
                    a *= b
                else:
                    a /= b
                env.check(a is was, "in-place")
                # the same object may be there twice
                for t in range(len(live)):
                    if live[t] is a:
                        model[t] = nm
                continue
            r = a * b if s == 1 else a / b
        elif o == "a**=-1":
            a **= -1
            for t in range(len(live)):
                if live[t] is a:
                    model[t] = {u: -x for u, x in m.items()}
            continue
        else:
            r, nm = {"a**2": lambda: (a ** 2, {u: 2 * x for u, x in m.items()}), "a**1": lambda: (a ** 1, m), "a**0": lambda: (a ** 0, {}),
                     "a+a": lambda: (a + a, m), "copy": lambda: (a.copy(), m), "simplified": lambda: (a.simplified, m),
                     "sqrt": lambda: (a ** 0.5, {u: x * 0.5 for u, x in m.items()})}[o]()
        env.check(not any(r is t for t in live), "new-object:" + o)
        live.append(r)
        model.append(dict(nm))
    for d, m in zip(live, model):
        env.same_dims(d, {u: x for u, x in m.items()}, "history")
    if q is not None:
        env.same_dims(q, {"qa": 1, "qb": e}, "quantity")


indep.register("C03")
