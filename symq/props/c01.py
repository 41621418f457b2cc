"""C01 unit conversion preserves the physical value"""
from symq import independent as indep
from symq.harness import harness

SH = [(), (3,), (2, 2)]


@harness("C01", shape=SH, variants=[{"dtype": "f4"}], dtype=["f8"])
def fresh_units(env, shape, dtype):
    """x [ua] -> rescale(ub): x*k1/k2, for all units of all sizes; round trip; operand untouched"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    x = env.arr("x", shape, dtype)
    q = env.pq.Quantity(x, ua)
    s = env.snap(q)
    r = q.rescale(ub)
    env.klass(r, env.pq.Quantity, "rescale")
    env.same_dims(r, {"ub": 1}, "rescale")
    env.eq(env.vals(r), [v * k1 / k2 for v in env.vals(x)], "rescale-value")
    env.shape(r, shape, "rescale")
    env.unchanged(s, q, "operand")
    back = r.rescale(ua)
    env.same_dims(back, {"ua": 1}, "back")
    env.eq(env.vals(back), env.vals(x), "round-trip")


FORMS = ["unit", "string", "dimensionality", "quantity"]


@harness("C01", form=FORMS, e=[(-2, 3), (1, -1), (2, 1), (1.5, -0.5), (-2.5, 1)], thorough={"e": [(-2, 3), (1, -1), (2, 1), (3, -3), (-1, -1), (0, 2), (1.5, -0.5), (-2.5, 1), (0.5, 0.5), (3.5, -1.5), (-1.5, -1.5)]})
def products(env, form, e):
    """x [ua**e1*va**e2] -> [ub**e1*vb**e2] over two dimensions: factor (k1/k2)**e1*(l1/l2)**e2"""
    A, B = env.bases()
    e1, e2 = e
    k1, k2, l1, l2 = [env.real(n, pos=True) for n in ("k1", "k2", "l1", "l2")]
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    va, vb = env.unit("va", l1 * B), env.unit("vb", l2 * B)
    x = env.arr("x", (2,))
    src, dst = ua ** e1 * va ** e2, ub ** e1 * vb ** e2
    q = env.pq.Quantity(x, src)
    if form == "string":
        to = "ub**%g*vb**%g" % (e1, e2)
    elif form == "dimensionality":
        to = dst.dimensionality
    elif form == "quantity":
        to = env.pq.Quantity(1.0, dst)
    else:
        to = dst
    s = env.snap(q)
    r = q.rescale(to)
    env.same_dims(r, env.mul_dims({"ub": e1}, {"vb": e2}), "rescale")
    f = (k1 / k2) ** e1 * (l1 / l2) ** e2
    env.eq(env.vals(r), [v * f for v in env.vals(x)], "rescale-value")
    env.unchanged(s, q, "operand")
    env.eq(env.vals(r.rescale(src)), env.vals(x), "round-trip")


@harness("C01")
def exponents(env):
    """symbolic integer exponents -3..3: x [ua**e] -> [ub**e]"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua, ub = env.unit("ua", k1 * A), env.unit("ub", k2 * A)
    e = env.int("e", -3, 3)
    x = env.arr("x", (2,))
    q = env.pq.Quantity(x, ua ** e)
    r = q.rescale(ub ** e)
    env.same_dims(r, {"ub": e}, "rescale")
    env.eq(env.vals(r), [v * (k1 / k2) ** e for v in env.vals(x)], "rescale-value")


@harness("C01", depth=[1, 2, 3])
def chain(env, depth):
    """definition chains: ua = k1*A, ub = k2*ua, uc = k3*ub ...; conversions to every level agree"""
    A, B = env.bases()
    prev, us, fs = A, [A], [1]
    for i in range(depth):
        k = env.real("k%d" % i, pos=True)
        u = env.unit("u%d" % i, k * prev)
        fs.append(fs[-1] * k)
        us.append(u)
        prev = u
    x = env.arr("x", (2,))
    for i in range(len(us)):
        for j in range(len(us)):
            r = env.pq.Quantity(x, us[i]).rescale(us[j])
            env.eq(env.vals(r), [v * fs[i] / fs[j] for v in env.vals(x)], "chain")
            env.same_dims(r, {us[j].name: 1}, "chain")


@harness("C01")
def via_intermediate(env):
    """a -> b -> c equals a -> c"""
    A, B = env.bases()
    ks = [env.real(n, pos=True) for n in ("k1", "k2", "k3")]
    us = [env.unit("u%d" % i, k * A) for i, k in enumerate(ks)]
    x = env.arr("x", (2,))
    q = env.pq.Quantity(x, us[0])
    r1 = q.rescale(us[1]).rescale(us[2])
    r2 = q.rescale(us[2])
    env.eq(r1, r2, "intermediate")
    env.eq(env.vals(r2), [v * ks[0] / ks[2] for v in env.vals(x)], "direct")
    env.same_dims(r1, {"u2": 1}, "intermediate")


@harness("C01")
def regroup(env):
    """a product unit converts like its expansion: uc = k*ua*B**2 against ua, B"""
    A, B = env.bases()
    k1, k2 = env.real("k1", pos=True), env.real("k2", pos=True)
    ua = env.unit("ua", k1 * A)
    uc = env.unit("uc", k2 * ua * B ** 2)
    x = env.arr("x", (2,))
    q = env.pq.Quantity(x, uc)
    r = q.rescale(ua * B ** 2)
    env.eq(env.vals(r), [v * k2 for v in env.vals(x)], "expand")
    env.same_dims(r, {"ua": 1, "qb": 2}, "expand")
    r = q.rescale(A * B ** 2)
    env.eq(env.vals(r), [v * k2 * k1 for v in env.vals(x)], "base")
    r = env.pq.Quantity(x, uc ** -1 * A).rescale(B ** -2)
    env.eq(env.vals(r), [v / (k2 * k1) for v in env.vals(x)], "inverse")
    # ratio of the same kind of unit is dimensionless with a factor
    r = env.pq.Quantity(x, ua / A).rescale("")
    env.eq(env.vals(r), [v * k1 for v in env.vals(x)], "ratio")
    env.same_dims(r, {}, "ratio")
    r = env.pq.Quantity(x, ua / A)
    env.eq(r.dimensionless_magnitude, [v * k1 for v in env.vals(x)], "dimensionless-magnitude")


@harness("C01")
def repeated(env):
    """histories: converting twice, and converting different quantities, does not change later conversions"""
    A, B = env.bases()
    k1, k2, k3 = [env.real(n, pos=True) for n in ("k1", "k2", "k3")]
    ua, ub, uc = env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("uc", k3 * B)
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    q, p = env.pq.Quantity(x, ua), env.pq.Quantity(y, ub)
    for i in range(2):
        env.eq(env.vals(q.rescale(ub)), [v * k1 / k2 for v in env.vals(x)], "q")
        env.eq(env.vals(p.rescale(ua)), [v * k2 / k1 for v in env.vals(y)], "p")
        env.eq(env.vals((q * uc).rescale(ub * B)), [v * k1 * k3 / k2 for v in env.vals(x)], "qc")
        env.eq(env.vals((q / p).rescale("")), [v * k1 / (w * k2) for v, w in zip(env.vals(x), env.vals(y))], "ratio") \
            if env.choice("ratio%d" % i, [False, True]) else None


@harness("C01", how=["rescale", "units", "add", "reference", "construct"], form=["unit", "power", "text-free"])
def look_alikes(env, how, form):
    """histories over different units that print alike (same symbol), one conversion after the other"""
    pq = env.pq
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(3)]
    us = [pq.UnitQuantity("first", k[0] * A, symbol="zz"), pq.unitquantity.UnitConstant("second", k[1] * A, symbol="zz"), pq.unitquantity.UnitConstant("third", k[2] * B, symbol="zz")]
    base = [A, A, B]
    e = 2 if form == "power" else 1
    for rnd in range(2):
        for i in (0, 1, 2):
            x = env.arr("x%d%d" % (rnd, i), (2,))
            q = pq.Quantity(x, us[i] ** e)
            want = [v * k[i] ** e for v in env.vals(x)]
            t = base[i] ** e
            if how == "rescale":
                r = q.rescale(t)
            elif how == "units":
                q.units = t
                r = q
            elif how == "add":
                r = pq.Quantity([0.0, 0.0], t) + q
            elif how == "construct":
                r = pq.Quantity(q, t)
            else:
                r = q.simplified
            env.eq(env.vals(r), want, "%s-%d" % (how, i))
            env.same_dims(r, {base[i].name: e}, how)
        env.raises(ValueError, lambda: pq.Quantity([1.0], us[0]).rescale(us[2]), "dimension")


@harness("C01", mutate=["value", "units", "imul", "fill"], how=["rescale", "rescale-same", "simplified", "units", "construct", "dimensionality", "magnitude-free"])
def results_independent(env, mutate, how):
    """changing the result of a conversion changes no later result"""
    pq = env.pq
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(3)]
    ua, ub = env.unit("ua", k[0] * A), env.unit("ub", k[1] * A)
    x = env.arr("x", (2,))
    q = pq.Quantity(x, ua)
    y = env.real("y", pos=True)
    s = env.snap(q)
    go = {"rescale": lambda: q.rescale(ub), "rescale-same": lambda: q.rescale(ua), "simplified": lambda: q.simplified, "units": lambda: q.units,
          "construct": lambda: pq.Quantity(q, ub), "dimensionality": lambda: pq.Quantity(y, q.dimensionality), "magnitude-free": lambda: ua.simplified}[how]
    r = go()
    want, d = list(env.vals(r)), env.dims(r)
    uz = env.unit("uz", k[2] * A)

    def go2():
        t = r
        if mutate == "value":
            t[...] = 7 * t
        elif mutate == "units":
            t.units = uz
        elif mutate == "imul":
            t *= y
            t *= ub
        else:
            t.fill(y * A)
    env.attempt(go2)
    if how == "dimensionality":
        q.dimensionality.clear()
        dd = q.dimensionality
        dd *= ub.dimensionality
    env.unchanged(s, q, "source")
    r = go()
    env.eq(env.vals(r), want, "again")
    env.same_dims(r, d, "again")
    env.eq(env.vals(pq.Quantity(x, ua).rescale(ub)), [v * k[0] / k[1] for v in env.vals(x)], "again")


@harness("C01")
def same_units_copy(env):
    """rescaling to the present units gives an equal, independent copy"""
    A, B = env.bases()
    k1 = env.real("k1", pos=True)
    ua = env.unit("ua", k1 * A)
    x = env.arr("x", (2,))
    q = env.pq.Quantity(x, ua)
    for to in (ua, "ua", q.dimensionality, q.units):
        r = q.rescale(to)
        env.eq(env.vals(r), env.vals(x), "same")
        env.same_dims(r, {"ua": 1}, "same")
        s = env.snap(q)
        r[0] = 7 * ua
        env.unchanged(s, q, "original")


BUILTIN = [("m", "ft"), ("J", "kWh"), ("degC", "degF"), ("mmHg", "psi"), ("mi/h", "m/s"), ("deg", "rad"),
           ("N*m/A", "Wb"), ("byte/s", "bit/min"), ("uF", "C/V"), ("acre", "m**2"), ("l", "inch**3")]


@harness("C01", pair=BUILTIN)
def builtin_roundtrip(env, pair):
    """built-in units: conversion there and back, via the simplified form, and scaling linearly in x"""
    a, b = pair
    x = env.arr("x", (2,))
    q = env.pq.Quantity(x, a)
    s = env.snap(q)
    r = q.rescale(b)
    env.eq(env.vals(r.rescale(a)), env.vals(x), "round-trip")
    one = float(env.pq.Quantity(1.0, a).rescale(b).magnitude)
    env.check(one > 0, "positive-factor")
    env.eq(env.vals(r), [v * one for v in env.vals(x)], "linear")
    env.eq(env.vals(q.simplified.rescale(b)), [v * one for v in env.vals(x)], "via-simplified")
    env.unchanged(s, q, "operand")


indep.register("C01")
