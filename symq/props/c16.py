"""C16 printed units read back as the same units"""
from symq.harness import harness

CH = 16
EXPS = [1, -1, 2, -2, 3, 10, 20, -30, 100, -37, 0.5, -0.5, 1.5, 10.5, 1 / 3, 1e-5, 12.25, -2.0, 10.0, 1e16, 1.0001, 0.9999, -1.0001, 1 + 1e-7, -0.99999, 1e-3, 2.0001, 1e-10, 1 + 2e-16]


def same(env, got, want, label):
    if not want:
        env.check(not getattr(got, "dimensionality", {}), label + ":units")
        return
    env.check(hasattr(got, "dimensionality") and env.dims(got) == want, label + ":units")
    env.eq(env.vals(got), [1], label + ":factor")


@harness("C16", part=list(range(CH)))
def every_unit(env, part):
    """every built-in unit, alone and in products, at every exponent"""
    pq = env.pq
    reg = env.registry()
    units = {}
    for n in sorted(reg):
        units.setdefault(reg[n].name, reg[n])
    names = sorted(units)
    for i, n in enumerate(names[part::CH]):
        u = units[n]
        if not env.dims(u):
            continue
        if u.symbol.startswith("("):
            # named like an expression: reads back as that expression
            for e in (1, -1, 2, 0.5):
                r = pq.unit_registry[(u ** e).dimensionality.string]
                r1, r2 = r.simplified, (u ** e).simplified
                env.check(r1.dimensionality == r2.dimensionality, "named-expression:" + n)
                env.eq(env.vals(r1), env.vals(r2), "named-expression:" + n)
            continue
        v = units[names[(i * 37 + part * 11 + 5) % len(names)]]
        for e in EXPS:
            d = (u ** e).dimensionality
            same(env, pq.unit_registry[d.string], {n: e}, "one:%s**%s" % (n, e))
            if e in (1, -1, 2, -30, 1.5) and v.name != n and env.dims(v) and not v.symbol.startswith("("):
                for e2 in (1, -2, 0.5) if e == 1 else (-1,):
                    d = ((u ** e) * (v ** e2)).dimensionality
                    same(env, pq.unit_registry[str(d)], {n: e, v.name: e2}, "two:%s" % d)
        x = env.arr("x%d_" % i, (1,))
        q = pq.Quantity(x, u)
        r = pq.Quantity(x, q.dimensionality.string)
        env.check(r.dimensionality == q.dimensionality, "quantity")
        env.eq(env.vals(r.rescale(q.units)), env.vals(x), "quantity")


def units(env, symbols):
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    if symbols:
        a = env.pq.UnitQuantity("alpha", k1 * A, symbol="al", u_symbol="α")
        b = env.pq.UnitQuantity("beta", k2 * A / B, aliases=["betas"])
    else:
        a, b = A, env.unit("beta", k2 * B ** 2)
    return A, B, a, b, k1, k2


@harness("C16", hundreds=[(0, 2), (3, 5), (6, 7), (8, 9)], sign=[1, -1])
def integers(env, hundreds, sign):
    """every integer exponent up to three digits"""
    A, B, a, b, k1, k2 = units(env, True)
    e = sign * (100 * env.choice("h", list(range(hundreds[0], hundreds[1] + 1))) + 10 * env.choice("t", list(range(10))) + env.choice("o", list(range(10))))
    d = (a ** e * b).dimensionality
    same(env, env.pq.unit_registry[d.string], {n: v for n, v in (("alpha", e), ("beta", 1)) if v}, "string")
    d = (a ** e).dimensionality
    same(env, env.pq.unit_registry[str(d)], {"alpha": e} if e else {}, "single")


@harness("C16", third=[None, 1, -2], symbols=[True, False], thorough={"third": [None, 1, -1, -2, 3, 10, -20]}, max_paths=8000)
def products(env, third, symbols):
    """two and three units, symbolic exponents; what is read back converts like the original"""
    A, B, a, b, k1, k2 = units(env, symbols)
    e1 = env.int("e1", -4, 4, text=True)
    e2 = env.int("e2", -4, 4, text=True)
    q = a ** e1 * b ** e2
    if third:
        q = q * env.pq.s ** third
    d = q.dimensionality
    r = env.pq.unit_registry[d.string]
    want = env.mul_dims(env.pow_dims({a.name: 1}, e1), env.pow_dims({b.name: 1}, e2))
    if third:
        want = env.mul_dims(want, {"second": third})
    want = {n: e for n, e in want.items() if not (e == 0)}
    if not want:
        same(env, r, want, "string")
        return
    same(env, r, want, "string")
    env.check(r.dimensionality == d, "equal")
    x = env.arr("x", (1,))
    p = env.pq.Quantity(x, d.string)
    s1, s2 = p.simplified, env.pq.Quantity(x, d).simplified
    env.check(s1.dimensionality == s2.dimensionality, "simplified")
    env.eq(env.vals(s1), env.vals(s2), "simplified")


@harness("C16", den=[2, 3, 4, 10, 7], order=["ab", "ba"])
def decimals(env, den, order):
    """decimal exponents (any numerator over the denominator), built by powers and roots"""
    A, B, a, b, k1, k2 = units(env, True)
    n = env.choice("n", [1, 2, 3, 5, 9, 10, 15, 20, 21, 37, 100, 101, 1001])
    sg = env.choice("sign", [1, -1])
    m = env.choice("m", [0, 1, -3, 10])
    e = sg * n / den
    q = a ** e * b ** m if order == "ab" else b ** m * a ** e
    d = q.dimensionality
    want = {"alpha": e}
    if m:
        want["beta"] = m
    same(env, env.pq.unit_registry[d.string], want, "string")
    x = env.arr("x", (1,), pos=True)
    if den == 2:
        r = env.np.sqrt(env.pq.Quantity(x, a ** (sg * n) * b ** (2 * m)))
        env.check(env.dims(env.pq.unit_registry[r.dimensionality.string]) == want, "root")


NEAR = [1, -1, 2, 0.5, -2, 10, 1 / 3]


@harness("C16", near=NEAR, third=[0, 1, -2])
def nearly(env, near, third):
    """exponents that are nearly an integer or nearly another one, and tiny and long ones, are not mistaken for it"""
    A, B, a, b, k1, k2 = units(env, True)
    sg = env.choice("sign", [1, -1])
    step = env.choice("step", [0.5, 0.1, 0.03, 0.01, 0.004, 1e-3, 4e-4, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12, 1e-14])
    e = near + sg * step
    if not e:
        env.assume(False)
    q = a ** e * env.pq.s ** third if third else a ** e
    d = q.dimensionality
    want = {"alpha": e, "second": third} if third else {"alpha": e}
    same(env, env.pq.unit_registry[d.string], want, "string")
    same(env, env.pq.unit_registry[((a ** e) ** -1).dimensionality.string], {"alpha": -e}, "inverse")
    same(env, env.pq.unit_registry[(b * a ** (sg * step)).dimensionality.string], {"beta": 1, "alpha": sg * step}, "small")


COMP = [("qa**2/beta", 1), ("3*qa*m", 3), ("m/s^2", 1), ("(qa/(beta*s))**2", 1), ("0.5*alpha", 0.5), ("in**2", 1), ("pc/cm**3", 1), ("qa·m/100", 0.01)]


@harness("C16", comp=COMP, e=[1, -1, 2, 0.5], others=[0, 1, 2])
def compound(env, comp, e, others):
    """a compound unit reads back as its expression, of the same physical size"""
    t, f = comp
    A, B, a, b, k1, k2 = units(env, True)
    c = env.pq.CompoundUnit(t)
    q = c ** e
    if others:
        q = q * b ** -others
    if others == 2:
        q = q / env.pq.CompoundUnit("beta*kg") ** 2
    r = env.pq.unit_registry[q.dimensionality.string]
    s1, s2 = r.simplified, q.simplified
    env.check(s1.dimensionality == s2.dimensionality, "dimension")
    env.eq(env.vals(s1), env.vals(s2), "size")
    # and it is the expression, unit by unit
    want = env.dims(env.pq.unit_registry[t])
    want = {n: v * e for n, v in want.items()}
    if others:
        want = env.mul_dims(want, {"beta": -others})
    if others == 2:
        want = env.mul_dims(want, {"beta": -2, "kilogram": -2})
    env.same_dims(r, want, "expression")
    env.eq(env.vals(r), [float(f) ** e], "factor")


from symq import many  # noqa: E402
many.register("C16")
