"""C14 user-defined and compound units convert by their definitions"""
from symq import independent as indep
from symq.harness import harness


def defaults(env, when, now, ka, A, state):
    """activate another default unit of qa's dimension at the chosen moment"""
    if when == now:
        env.clsA.set_default_unit(state["A2"])
        state["on"] = True


def start(env):
    A, B = env.bases()
    ks = [env.real("k%d" % i, pos=True) for i in range(6)]
    A2 = env.clsA("qa2", ks[5] * A, symbol="qa2")
    return A, B, A2, ks


WHEN = ["never", "before", "between", "after"]


def chain(env, A, B, ks, shape, when=None, hook=None):
    """-> list of (unit, factor, expA, expB): unit is factor * A**expA * B**expB by definition"""
    pq = env.pq
    out = []

    def mk(n, d, f, ea, eb):
        u = env.unit(n, d)
        out.append((u, f, ea, eb))
        return u
    a = mk("w1", ks[0] * A, ks[0], 1, 0)
    if hook:
        hook()
    if shape == "line":
        b = mk("w2", ks[1] * a, ks[0] * ks[1], 1, 0)
        c = mk("w3", ks[2] * b, ks[0] * ks[1] * ks[2], 1, 0)
        mk("w4", ks[3] * c, ks[0] * ks[1] * ks[2] * ks[3], 1, 0)
    elif shape == "square":
        b = mk("w2", ks[1] * a * a, ks[0] ** 2 * ks[1], 2, 0)
        mk("w3", ks[2] * b ** 2 / a, ks[0] ** 3 * ks[1] ** 2 * ks[2], 3, 0)
    elif shape == "mixed":
        b = mk("w2", ks[1] * B, ks[1], 0, 1)
        c = mk("w3", ks[2] * a / b ** 2, ks[2] * ks[0] / ks[1] ** 2, 1, -2)
        mk("w4", ks[3] * c ** -1 * B, ks[3] / (ks[2] * ks[0] / ks[1] ** 2), -1, 3)
    elif shape == "alias":
        b = mk("w2", a, ks[0], 1, 0)
        mk("w3", 1 * b, ks[0], 1, 0)
    elif shape == "default2":
        A2 = pq.unit_registry["qa2"]
        b = mk("w2", ks[1] * A2 * a, ks[1] * ks[5] * ks[0], 2, 0)
        mk("w3", A2 / b, 1 / (ks[1] * ks[0]), -1, 0)
    elif shape == "dimless":
        b = mk("w2", a / A, ks[0], 0, 0)
        mk("w3", ks[1] * b, ks[0] * ks[1], 0, 0)
    elif shape == "number":
        mk("w2", ks[1], ks[1], 0, 0)
        mk("w3", 2, 2, 0, 0)
    elif shape == "compound":
        b = env.pq.CompoundUnit("w1/qb**2")
        out.append((b, ks[0], 1, -2))
        c = mk("w2", ks[1] * b ** 2, ks[1] * ks[0] ** 2, 2, -4)
        d = env.pq.CompoundUnit("3*w2*qa")
        out.append((d, 3 * ks[1] * ks[0] ** 2, 3, -4))
        out.append((env.pq.CompoundUnit("(w1**2)^2·qa2"), ks[0] ** 4 * ks[5], 5, 0))
    return out


SHAPES = ["line", "square", "mixed", "alias", "default2", "dimless", "number", "compound"]


@harness("C14", shape=SHAPES, when=WHEN, e=[1, -2], thorough={"e": [1, -2, 2, 3, 0.5, -1]})
def conversions(env, shape, when, e):
    """every unit of a definition chain converts to and from every other by the product of the definitions"""
    A, B, A2, ks = start(env)
    st = {"A2": A2, "on": False}
    defaults(env, when, "before", ks[5], A, st)
    us = chain(env, A, B, ks, shape, hook=lambda: defaults(env, when, "between", ks[5], A, st))
    defaults(env, when, "after", ks[5], A, st)
    x = env.arr("x", (2,))
    for i, (u, f, ea, eb) in enumerate(us):
        q = env.pq.Quantity(x, u ** e)
        r = q.rescale(A ** (ea * e) * B ** (eb * e))
        env.eq(env.vals(r), [v * f ** e for v in env.vals(x)], "to-base")
        env.same_dims(r, {"qa": ea * e, "qb": eb * e}, "to-base")
        b = env.pq.Quantity(x, A ** (ea * e) * B ** (eb * e)).rescale(u ** e)
        env.eq(env.vals(b), [v / f ** e for v in env.vals(x)], "from-base")
        env.same_dims(b, {u.name: e}, "from-base")
        s = q.simplified
        fa = ks[5] if st["on"] else 1
        env.eq(env.vals(s), [v * f ** e / fa ** (ea * e) for v in env.vals(x)], "simplified")
        env.same_dims(s, {"qa2" if st["on"] else "qa": ea * e, "qb": eb * e}, "simplified")
        for u2, f2, ea2, eb2 in us[:i]:
            if (ea, eb) == (ea2, eb2):
                t = q.rescale(u2 ** e)
                env.eq(env.vals(t), [v * (f / f2) ** e for v in env.vals(x)], "sibling")
            else:
                env.raises(ValueError, lambda: q.rescale(u2 ** e), "incompatible")


@harness("C14", shape=SHAPES, e=[1, 2, -1, 3], thorough={"e": [1, 2, -1, 3, -2]})
def any_sign(env, shape, e):
    """a definition by a negative factor is honoured with its sign"""
    A, B = env.bases()
    ks = [env.real("k%d" % i, lo=-9, hi=-1) for i in range(6)]
    env.clsA("qa2", ks[5] * A, symbol="qa2")
    us = chain(env, A, B, ks, shape)
    x = env.arr("x", (2,))
    for i, (u, f, ea, eb) in enumerate(us):
        q = env.pq.Quantity(x, u ** e)
        env.eq(env.vals(q.rescale(A ** (ea * e) * B ** (eb * e))), [v * f ** e for v in env.vals(x)], "to-base")
        b = env.pq.Quantity(x, A ** (ea * e) * B ** (eb * e)).rescale(u ** e)
        env.eq(env.vals(b), [v / f ** e for v in env.vals(x)], "from-base")
        env.eq(env.vals(q.simplified), [v * f ** e for v in env.vals(x)], "simplified")
        env.eq(env.vals((2 * u).simplified), [2 * f], "unit-simplified")
        for u2, f2, ea2, eb2 in us[:i]:
            if (ea, eb) == (ea2, eb2):
                env.eq(env.vals(q.rescale(u2 ** e)), [v * (f / f2) ** e for v in env.vals(x)], "sibling")


@harness("C14", shape=SHAPES, when=WHEN)
def arithmetic(env, shape, when):
    """sums, products and comparisons treat the unit as exactly its definition"""
    A, B, A2, ks = start(env)
    st = {"A2": A2, "on": False}
    defaults(env, when, "before", ks[5], A, st)
    us = chain(env, A, B, ks, shape, hook=lambda: defaults(env, when, "between", ks[5], A, st))
    x, y = env.arr("x", (1,)), env.arr("y", (1,))
    defaults(env, when, "after", ks[5], A, st)
    xv, yv = env.vals(x)[0], env.vals(y)[0]
    for u, f, ea, eb in us[1:]:
        base = A ** ea * B ** eb
        q, p = env.pq.Quantity(x, u), env.pq.Quantity(y, base)
        r = q + p
        env.eq(env.vals(r), [xv + yv / f], "sum", scale=[env.absum(xv, yv / f)])
        env.same_dims(r, {u.name: 1}, "sum")
        r = p - q
        env.eq(env.vals(r), [yv - xv * f], "difference", scale=[env.absum(yv, xv * f)])
        r = q * p / us[0][0]
        env.eq(env.vals(r), [xv * yv], "product")
        env.eq(env.vals(r.simplified.rescale(base ** 2 / A)), [xv * yv * f / ks[0]], "product-size")
        r = 3 * u
        env.eq(env.vals(r.rescale(base)), [3 * f], "unit-multiple")
        r = u ** 2
        env.eq(env.vals(r.rescale(base ** 2)), [f * f], "unit-power")
    u, f, ea, eb = us[-1]
    q, p = env.pq.Quantity(x, u), env.pq.Quantity(y, A ** ea * B ** eb)
    if env.symbolic:
        lt, eq = (q < p), (q == p)
        for t, want, lab in ((env._flat(lt)[0], xv * f < yv, "less"), (env._flat(eq)[0], xv * f == yv, "equal")):
            env.check(want if bool(t) else _not(want), lab)
    else:
        a, b = xv * f, yv
        (q < p), (q == p)
        if abs(a - b) > 1e-9 * (abs(a) + abs(b)):
            env.check(bool(env._flat(q < p)[0]) == (a < b), "less")
            env.check(not bool(env._flat(q == p)[0]), "equal")


def _not(c):
    return (not c) if isinstance(c, bool) else ~c


@harness("C14", shape=SHAPES, when=WHEN)
def definitions_kept(env, shape, when):
    """defining and using units changes neither the units they are built from nor the definition handed in"""
    A, B, A2, ks = start(env)
    st = {"A2": A2, "on": False}
    defaults(env, when, "before", ks[5], A, st)
    d = ks[4] * A / B
    sd = env.snap(d)
    z = env.unit("z", d)
    sz = env.snap(z)
    us = chain(env, A, B, ks, shape, hook=lambda: defaults(env, when, "between", ks[5], A, st))
    w = env.unit("zz", 2 * z * us[-1][0])
    env.pq.CompoundUnit("z*qa")
    defaults(env, when, "after", ks[5], A, st)
    env.unchanged(sd, d, "definition")
    env.unchanged(sz, z, "unit")
    for u, n in ((A, "qa"), (B, "qb"), (A2, "qa2"), (z, "z")):
        env.check(u.name == n and u.symbol == n, "name")
        env.eq(env.vals(u), [1], "magnitude")
        env.same_dims(u, {n: 1}, "units")
    x = env.arr("x", (1,))
    for u, f, base in ((z, ks[4], A / B), (A2, ks[5], A), (us[0][0], ks[0], A)):
        r = env.pq.Quantity(x, u).rescale(base)
        env.eq(env.vals(r), [v * f for v in env.vals(x)], "size")
    # later changes of the quantity the unit was defined from do not matter
    d *= 2
    d.units = A2 / B
    r = env.pq.Quantity(x, z).rescale(A / B)
    env.eq(env.vals(r), [v * ks[4] for v in env.vals(x)], "size-after-change")
    u, f, ea, eb = us[-1]
    r = env.pq.Quantity(x, w).rescale(A ** (ea + 1) * B ** (eb - 1))
    env.eq(env.vals(r), [v * 2 * ks[4] * f for v in env.vals(x)], "outer-size")


BUILT = {"ft*lb": ("kg*m", (0.3048, 0.45359237)), "mi": ("m", (1609.344,)), "J*hour": ("kg*m**2/s", (3600.0,)),
         "N/inch**2": ("kg/(m*s**2)", (1 / 0.0254 / 0.0254,)), "minute**2": ("s**2", (3600.0,)),
         "g/cc": ("kg/m**3", (1000.0,)), "km/hour": ("m/s", (1000 / 3600,)), "12*kPa*L": ("kg*m**2/s**2", (12.0,)),
         "rpm": ("rad/s", (2 * 3.141592653589793 / 60,)), "degree": ("rad", (3.141592653589793 / 180,))}


@harness("C14", expr=sorted(BUILT), system=[None, "cgs", {"length": "ft", "time": "hour", "mass": "lb"}],
         kind=["compound", "defined", "nested"])
def builtin(env, expr, system, kind):
    """units defined from built-in units, under other unit systems"""
    pq = env.pq
    when = env.choice("when", ["before", "after"])
    tgt, fs = BUILT[expr]
    f = 1
    for g in fs:
        f = f * g

    def setd():
        if isinstance(system, dict):
            pq.set_default_units(**system)
        elif system:
            pq.set_default_units(system)
    if when == "before":
        setd()
    k = env.real("k", pos=True)
    if kind == "compound":
        u = pq.CompoundUnit(expr)
    else:
        k_q = k * pq.unit_registry[expr]
        u = env.unit("uu", k_q)
        f = k * f
        if kind == "nested":
            u = env.unit("uv", k * u)
            f = k * f
    if when == "after":
        setd()
    x = env.arr("x", (2,))
    q = pq.Quantity(x, u)
    r = q.rescale(tgt)
    env.eq(env.vals(r), [v * f for v in env.vals(x)], "size")
    r2 = q.simplified.rescale(tgt)
    env.eq(env.vals(r2), [v * f for v in env.vals(x)], "simplified-size")
    r3 = pq.Quantity(x, tgt).rescale(u)
    env.eq(env.vals(r3), [v / f for v in env.vals(x)], "from")
    env.same_dims(r3, {u.name: 1}, "from")
    pq.set_default_units("SI", length="m")


@harness("C14", src=["quantity", "array-0d", "uncertain", "one-element", "unit-times"], how=["imul", "units", "set", "iadd", "fill", "array"], cls=["UnitQuantity", "special"], of=["unit", "none", "product"],
         filt=lambda src, how, cls, of: of == "unit" or cls == "UnitQuantity")
def definition_is_kept(env, src, how, cls, of):
    """changing, afterwards, the quantity a unit was defined from changes neither the unit nor its conversions"""
    pq, np = env.pq, env.np
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ub = env.unit("ub", k2 * A)
    a = np.array(k1) if not env.symbolic else np.array([k1]).reshape(())
    U = {"unit": A, "none": pq.dimensionless, "product": A * B}[of]
    d = {"quantity": lambda: pq.Quantity(k1, U), "array-0d": lambda: pq.Quantity(a, U), "uncertain": lambda: pq.UncertainQuantity(k1, U, 0.0),
         "one-element": lambda: pq.Quantity(env.np.array([k1]), U)[0], "unit-times": lambda: k1 * U}[src]()
    C = pq.UnitQuantity if cls == "UnitQuantity" else env.clsA
    u = C("w1", d)
    w = env.unit("w2", 2 * u)
    dims = {"unit": {"qa": 1}, "none": {}, "product": {"qa": 1, "qb": 1}}[of]
    ub = {"unit": ub, "none": pq.dimensionless, "product": ub * B}[of]
    k2 = 1 if of == "none" else k2

    def go():
        t = d
        if how == "imul":
            t *= 3.0
        elif how == "units":
            t.units = ub
        elif how == "set":
            t[...] = 5 * t
        elif how == "iadd":
            t += t
        elif how == "fill":
            t.fill(7.0)
        else:
            a[...] = 9.0
    env.attempt(go)
    x = env.arr("x", (1,))
    v = env.vals(x)[0]
    for n, f in ((u, k1), (w, 2 * k1)):
        env.eq(env.vals(n), [1], "magnitude")
        env.same_dims(n, {n.name: 1}, "units")
        s = n.simplified
        env.eq(env.vals(s), [f], "size")
        env.same_dims(s, dims, "size")
        r = pq.Quantity(x, n).rescale(ub)
        env.eq(env.vals(r), [v * f / k2], "conversion")
        r = pq.Quantity(x, ub).rescale(n)
        env.eq(env.vals(r), [v * k2 / f], "back")
        env.eq(env.vals(n.definition.rescale(U)), [f], "definition")


NAMES = {"w1/qb**2": {"w1": 1, "qb": -2}, "w1*w2": {"w1": 1, "w2": 1}, "1/w1": {"w1": -1}, "w2^2·qa": {"w2": 2, "qa": 1}, "w1**0.5": {"w1": 0.5}, "qa": {"qa": 1}, "3*w1": {"w1": 1}, "w1/w2": {"w1": 1, "w2": -1}}


@harness("C14", expr=list(NAMES), change=[None, "before", "after", "between"])
def compound_definition(env, expr, change):
    """the definition of a compound unit is what its name says, in the units of the name, under any default units"""
    pq = env.pq
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    w1, w2 = pq.UnitQuantity("w1", k1 * A), pq.UnitQuantity("w2", k2 * B)
    C = type(A)("qa9", 4 * A)
    if change == "before":
        type(A).set_default_unit(C)
    u = pq.CompoundUnit(expr)
    if change == "between":
        u.simplified
    if change in ("after", "between"):
        type(A).set_default_unit(C)
    f = 3 if expr.startswith("3") else 1
    want = NAMES[expr]
    for d in (u.definition, u.definition):
        env.check(isinstance(d, pq.Quantity), "quantity")
        env.eq(env.vals(d), [f], "magnitude")
        env.same_dims(d, want, "units")
        env.attempt(lambda: d.__imul__(7.0))
    x = env.arr("x", (2,))
    q = pq.Quantity(x, u)
    r = q.rescale(pq.unit_registry[expr].dimensionality)
    env.eq(env.vals(r), [v * f for v in env.vals(x)], "conversion")
    env.same_dims(r, want, "conversion")
    size = f
    for n, e in want.items():
        size = size * {"w1": k1, "w2": k2}.get(n, 1) ** e
        if n in ("w1", "qa") and change:
            size = size * 0.25 ** e
    env.eq(env.vals(q.simplified), [v * size for v in env.vals(x)], "simplified")


indep.register("C14")
