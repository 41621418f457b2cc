"""C06 products, quotients and powers carry the right units and value"""
import operator as op
from symq import independent as indep
from symq.harness import harness
from symq.props.c05 import bc, operand

KINDS = [("arr", "arr"), ("arr", "0d"), ("0d", "arr"), ("arr", "unit"), ("unit", "arr"), ("0d", "unit"), ("unit", "0d"),
         ("unit", "unit"), ("2d", "arr"), ("col", "arr")]
OPS = {"mul": op.mul, "div": op.truediv}


@harness("C06", o=["mul", "div"], kinds=KINDS, same=[False, True])
def fresh_units(env, o, kinds, same):
    """a[ua] */ b[vb]: magnitudes multiply / divide without conversion, exponents add / subtract"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua = env.unit("ua", k1 * A)
    vb = ua if same else env.unit("vb", k2 * B)
    a, va, sa = operand(env, kinds[0], "a", ua, nonzero=True)
    b, vb_, sb = operand(env, kinds[1], "b", vb, nonzero=True)
    s1, s2 = env.snap(a), env.snap(b)
    s = 1 if o == "mul" else -1
    f = (lambda x, y: x * y) if o == "mul" else (lambda x, y: x / y)
    r = OPS[o](a, b)
    want, sh = bc(env, va, sa, vb_, sb, f)
    env.klass(r, env.pq.Quantity, o)
    env.same_dims(r, env.mul_dims({"ua": 1}, {"ua" if same else "vb": 1}, s), o)
    env.shape(r, sh, o)
    env.eq(env.vals(r), want, o)
    env.unchanged(s1, a, "left")
    env.unchanged(s2, b, "right")


@harness("C06", o=["mul", "div", "floordiv"])
def exponents(env, o):
    """symbolic exponents: x[ua**e1*vb**f] * y[ua**e2*vb**g]"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, vb = env.unit("ua", k1 * A), env.unit("vb", k2 * B)
    e1, e2 = env.int("e1", -3, 3), env.int("e2", -3, 3)
    f, g = env.choice("f", [0, 1]), env.choice("g", [0, -1])
    x, y = env.arr("x", (2,)), env.arr("y", (2,), nonzero=True)
    q, p = env.pq.Quantity(x, ua ** e1 * vb ** f), env.pq.Quantity(y, ua ** e2 * vb ** g)
    s = 1 if o == "mul" else -1
    r = {"mul": op.mul, "div": op.truediv, "floordiv": op.floordiv}[o](q, p)
    env.same_dims(r, {"ua": e1 + s * e2, "vb": f + s * g}, o)
    if o != "floordiv":
        env.eq(env.vals(r), [a * b if o == "mul" else a / b for a, b in zip(env.vals(x), env.vals(y))], o)


NUM = ["float", "int", "npfloat", "arr", "list", "complex"]


@harness("C06", o=["mul", "div"], kind=NUM, what=["arr", "0d", "unit"], side=["left", "right"])
def plain(env, o, kind, what, side):
    """plain numbers, arrays and sequences scale the magnitude and leave / invert the units"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua = env.unit("ua", k1 * A)
    q, v, sh = operand(env, what, "a", ua, nonzero=True)
    y = env.arr("y", (2,), nonzero=True)
    z = env.real("z", nonzero=True)
    n = {"float": z, "int": -3, "npfloat": env.npreal("w", nonzero=True), "arr": y, "list": [y[0], y[1]],
         "complex": 2 - 1j}[kind]
    nv, nsh = (env.vals(y), (2,)) if kind in ("arr", "list") else ([n], ())
    s = env.snap(q)
    if side == "left":
        r = OPS[o](n, q)
        want, wsh = bc(env, nv, nsh, v, sh, lambda i, j: i * j if o == "mul" else i / j)
        d = {"ua": 1 if o == "mul" else -1}
    else:
        r = OPS[o](q, n)
        want, wsh = bc(env, v, sh, nv, nsh, lambda i, j: i * j if o == "mul" else i / j)
        d = {"ua": 1}
    env.klass(r, env.pq.Quantity, o)
    env.same_dims(r, d, o)
    env.shape(r, wsh, o)
    env.eq(env.vals(r), want, o)
    env.unchanged(s, q, "operand")


@harness("C06", what=["arr", "0d", "unit", "compound"], kind=["symint", "half", "negfrac", "zero", "npint", "0darr", "uniform", "qdimless"])
def power(env, what, kind):
    """q**p for a uniform p: magnitudes and exponents"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, vb = env.unit("ua", k1 * A), env.unit("vb", k2 * B)
    base, d = (ua ** 2 / vb, {"ua": 2, "vb": -1}) if what == "compound" else (ua, {"ua": 1})
    q, v, sh = operand(env, "arr" if what == "compound" else what, "a", base, pos=True)
    n = {"half": 0.5, "negfrac": -1.5, "zero": 0, "npint": env.np.int64(2) if not env.symbolic else 2,
         "0darr": env.np.array(3.0), "uniform": env.np.array([2.0, 2.0]), "qdimless": env.pq.Quantity(2.0)}.get(kind)
    p = {"half": 0.5, "negfrac": -1.5, "zero": 0, "npint": 2, "0darr": 3, "uniform": 2, "qdimless": 2}.get(kind)
    if kind == "symint":
        n = p = env.int("p", -3, 4)
    s = env.snap(q)
    r = q ** n
    env.is_quantity(r, "pow")
    env.same_dims(r, env.pow_dims(d, p), "pow")
    want = [i ** p for i in v]
    if kind == "uniform" and sh == ():
        want, sh = want * 2, (2,)
    env.shape(r, sh, "pow")
    env.eq(env.vals(r), want, "pow")
    env.unchanged(s, q, "operand")


@harness("C06", what=["arr", "0d", "unit"], bad=["nonuniform", "dimensional", "symbolic-dim", "nonuniform-sym", "three", "three-const", "square"])
def power_refused(env, what, bad):
    """non-uniform and dimensional exponents are refused with ValueError"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, vb = env.unit("ua", k1 * A), env.unit("vb", k2 * B)
    q, v, sh = operand(env, what, "a", ua, pos=True)
    if bad == "nonuniform":
        p = env.np.array([2.0, 3.0])
    elif bad in ("three-const", "square"):
        # the first and the last exponent agree
        p = env.np.array([2.0, 3.0, 2.0] if bad == "three-const" else [[2.0, 2.0], [1.0, 2.0]])
        if what == "arr":
            q = env.pq.Quantity(env.arr("b", p.shape, pos=True), ua)
    elif bad == "three":
        p = env.arr("p", (3,), lo=-3, hi=3)
        a, b, c = env.vals(p)
        env.assume((a != b) | (b != c))
        if what == "arr":
            q = env.pq.Quantity(env.arr("b", (3,), pos=True), ua)
    elif bad == "nonuniform-sym":
        p = env.arr("p", (2,))
        env.assume(env.vals(p)[0] != env.vals(p)[1])
    elif bad == "dimensional":
        p = env.pq.Quantity(2.0, vb)
    else:
        e = env.int("e", -2, 2, nonzero=True)
        p = env.pq.Quantity(env.npreal("y"), vb ** e)
    s = env.snap(q)
    env.raises(ValueError, lambda: q ** p, "pow")
    env.raises(ValueError, lambda: env.np.power(q, p), "np.power")
    env.unchanged(s, q, "operand")


@harness("C06")
def rpow(env):
    """a number to the power of a quantity: dimensional exponents refused"""
    A, B = env.bases()
    k1 = env.real("k1", pos=True)
    ua = env.unit("ua", k1 * A)
    q = env.pq.Quantity(env.npreal("x"), ua)
    st, r = env.attempt(lambda: 2.0 ** q)
    env.check(st == "exc" and isinstance(r, ValueError), "rpow-refused")
    st, r = env.attempt(lambda: 2.0 ** ua)
    env.check(st == "exc", "rpow-unit-refused")


@harness("C06", o=["mul", "div"], dt=["i8", "c16", "f4"])
def other_types(env, o, dt):
    """integer, complex and single magnitudes"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, vb = env.unit("ua", k1 * A), env.unit("vb", k2 * B)
    x = env.arr("x", (2,), dt, **({"lo": -9, "hi": 9} if dt == "i8" else {}))
    y = env.arr("y", (2,), dt, **({"pos": True, "hi": 9} if dt == "i8" else {"pos": True}))
    q, p = env.pq.Quantity(x, ua), env.pq.Quantity(y, vb)
    if o == "div" and dt == "c16":
        o = "mul"
    r = OPS[o](q, p)
    env.eq(env.vals(r), [a * b if o == "mul" else a / b for a, b in zip(env.vals(x), env.vals(y))], o)
    env.same_dims(r, {"ua": 1, "vb": 1 if o == "mul" else -1}, o)
    env.dtype_is(r, dt if o == "mul" or dt != "i8" else "f8", o)


@harness("C06")
def mixed_chain(env):
    """unit expressions with numbers in any position: 3*u, u*3, u/u, 1/u, u**2*3, number*array*unit"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, vb = env.unit("ua", k1 * A), env.unit("vb", k2 * B)
    z = env.real("z", nonzero=True)
    x = env.arr("x", (2,), nonzero=True)
    for r, d, v in ((z * ua, {"ua": 1}, [z]), (ua * z, {"ua": 1}, [z]), (ua / ua, {}, [1]), (1 / ua, {"ua": -1}, [1]),
                    (z / ua ** 2, {"ua": -2}, [z]), (ua / vb / z, {"ua": 1, "vb": -1}, [1 / z]),
                    (z * x * ua / vb, {"ua": 1, "vb": -1}, [z * i for i in env.vals(x)]),
                    (x * ua * (vb * z), {"ua": 1, "vb": 1}, [z * i for i in env.vals(x)]),
                    (x / (ua * vb), {"ua": -1, "vb": -1}, env.vals(x)),
                    ((ua * vb) ** 2 / (ua ** 3 * vb ** 2), {"ua": -1}, [1])):
        env.klass(r, env.pq.Quantity, "chain")
        env.same_dims(r, d, "chain")
        env.eq(env.vals(r), v, "chain")
    env.same_dims(ua, {"ua": 1}, "unit")
    env.eq(env.vals(ua), [1], "unit-value")


@harness("C06")
def physical(env):
    """(x*y) converted equals the product of converted factors"""
    A, B = env.bases()
    k1, k2, l1, l2 = [env.real(n, pos=True) for n in ("k1", "k2", "l1", "l2")]
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    va, vb = env.unit("va", l1 * B), env.unit("vb", l2 * B)
    x, y = env.arr("x", (2,)), env.arr("y", (2,), nonzero=True)
    q, p = env.pq.Quantity(x, ua), env.pq.Quantity(y, va)
    env.eq((q * p).rescale(ub * vb), q.rescale(ub) * p.rescale(vb), "product")
    env.eq((q / p).rescale(ub / vb), q.rescale(ub) / p.rescale(vb), "quotient")
    env.eq((p ** 3).rescale(vb ** 3), p.rescale(vb) ** 3, "power")
    # same kind of unit in one product: no hidden conversion
    r = q * env.pq.Quantity(y, ub)
    env.same_dims(r, {"ua": 1, "ub": 1}, "mixed")
    env.eq(r.rescale(ua ** 2), [a * b * k2 / k1 for a, b in zip(env.vals(x), env.vals(y))], "mixed")


@harness("C06", how=["op", "inplace", "ufunc", "square", "mul", "div", "rdiv"], e=[2, 3, -1, -2, 1, 0], shape=[(), (2,)], filt=lambda how, e, shape: how in ("op", "inplace", "ufunc") or e == 2)
def complex_numbers(env, how, e, shape):
    """powers, products and quotients of complex magnitudes: complex arithmetic, the units as ever"""
    pq, np = env.pq, env.np
    A, B = env.bases()
    ua = env.unit("ua", env.real("k1", pos=True) * A)
    x, y = env.arr("x", shape, "c16"), env.arr("y", shape, "c16")
    pairs = [list(zip(env.vals(np.real(t)), env.vals(np.imag(t)))) for t in (x, y)]
    for a in pairs:
        for re, im in a:
            env.assume(re * re + im * im > 0.01)
    q, p = pq.Quantity(x.copy(), ua), pq.Quantity(y.copy(), B)

    def mul(a, b):
        return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]

    def inv(a):
        d = a[0] * a[0] + a[1] * a[1]
        return a[0] / d, -a[1] / d

    def power(a, n):
        r = (1, 0)
        for i in range(abs(n)):
            r = mul(r, a)
        return inv(r) if n < 0 else r
    if how == "inplace":
        r = q
        r **= e
    else:
        r = {"op": lambda: q ** e, "ufunc": lambda: np.power(q, e), "square": lambda: np.square(q), "mul": lambda: q * p, "div": lambda: q / p, "rdiv": lambda: 2 / q}[how]()
    if how == "mul":
        want, d = [mul(a, b) for a, b in zip(*pairs)], {"ua": 1, B.name: 1}
    elif how == "div":
        want, d = [mul(a, inv(b)) for a, b in zip(*pairs)], {"ua": 1, B.name: -1}
    elif how == "rdiv":
        want, d = [mul((2, 0), inv(a)) for a in pairs[0]], {"ua": -1}
    else:
        want, d = [power(a, e) for a in pairs[0]], {"ua": e} if e else {}
    env.same_dims(r, d, how)
    env.shape(r, shape, how)
    m = np.array(r.magnitude)
    env.check(m.dtype == "c16", how + ":dtype")
    size = [abs(a[0]) + abs(a[1]) for a in want]
    env.eq(env.vals(np.real(m)), [a[0] for a in want], how + ":real", scale=size)
    env.eq(env.vals(np.imag(m)), [a[1] for a in want], how + ":imag", scale=size)


indep.register("C06")
