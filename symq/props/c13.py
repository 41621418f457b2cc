"""C13 simplification expresses the same value in the default units"""
from symq import independent as indep
from symq.harness import harness

DEF = {"length": ["m", "cm", "ft", "km"], "mass": ["kg", "g", "lb"], "time": ["s", "hour", "ms"], "current": ["A", "mA"],
       "temperature": ["K", "degF"], "substance": ["mol"], "luminous_intensity": ["cd"], "information": ["bit", "byte"]}


def fresh(env):
    A, B = env.bases()
    ks = [env.real(n, pos=True) for n in ("ka", "kb", "k1", "k2")]
    A2, B2 = env.clsA("qa2", ks[0] * A, symbol="qa2"), env.clsB("qb2", ks[1] * B, symbol="qb2")
    ua, ub = env.unit("ua", ks[2] * A), env.unit("ub", ks[3] * B)
    return A, B, A2, B2, ua, ub, ks


@harness("C13", da=[0, 1], db=[0, 1], e=["sym", (2, -1), (-1, 3), (1, 0), (0, 0), (-0.5, 1), (1.5, -1), (-1.5, 0), (-2, -0.5)], form=["unit", "string"])
def fresh_defaults(env, da, db, e, form):
    """simplified: same physical value, only default units, exponents per dimension; for every choice of defaults"""
    A, B, A2, B2, ua, ub, (ka, kb, k1, k2) = fresh(env)
    if da:
        env.clsA.set_default_unit(A2 if form == "unit" else "qa2")
    if db:
        env.clsB.set_default_unit(B2 if form == "unit" else "qb2")
    x = env.arr("x", (2,))
    e1, e2 = (env.int("e1", -2, 3), env.choice("e2", [0, -2])) if e == "sym" else e
    q = env.pq.Quantity(x, ua ** e1 * ub ** e2)
    s = env.snap(q)
    r = q.simplified
    fa, fb = (k1 / ka if da else k1), (k2 / kb if db else k2)
    env.same_dims(r, {"qa2" if da else "qa": e1, "qb2" if db else "qb": e2}, "simplified")
    env.eq(env.vals(r), [v * fa ** e1 * fb ** e2 for v in env.vals(x)], "simplified")
    env.shape(r, (2,), "simplified")
    env.is_quantity(r, "simplified")
    env.unchanged(s, q, "operand")
    # simplifying again changes nothing
    t = r.simplified
    env.same_dims(t, env.dims(r), "again")
    env.eq(env.vals(t), env.vals(r), "again")
    # and converting back gives the quantity
    b = r.rescale(ua ** e1 * ub ** e2)
    env.eq(env.vals(b), env.vals(x), "back")


@harness("C13", what=["base", "default2", "derived", "mixed", "dimensionless"], da=[0, 1])
def unit_objects(env, what, da):
    """simplifying unit objects"""
    A, B, A2, B2, ua, ub, (ka, kb, k1, k2) = fresh(env)
    if da:
        env.clsA.set_default_unit(A2)
    mix = env.unit("mix", 3.0 * ua * A2 / ub)
    u = {"base": A, "default2": A2, "derived": ua, "mixed": mix, "dimensionless": env.pq.dimensionless}[what]
    r = u.simplified
    f = ka if da else 1
    n = "qa2" if da else "qa"
    val, d = {"base": (1 / f, {n: 1}), "default2": (ka / f, {n: 1}), "derived": (k1 / f, {n: 1}),
              "mixed": (3 * k1 * ka / k2 / f / f, {n: 2, "qb": -1}), "dimensionless": (1, {})}[what]
    env.is_quantity(r, "unit")
    env.same_dims(r, d, "unit")
    env.eq(env.vals(r), [val], "unit")


@harness("C13", when=["before", "between", "after"])
def conversions_unaffected(env, when):
    """the choice of default units changes no conversion, sum or comparison"""
    A, B, A2, B2, ua, ub, (ka, kb, k1, k2) = fresh(env)
    if when == "before":
        env.clsA.set_default_unit(A2)
    k3 = env.real("k3", pos=True)
    uc = env.unit("uc", k3 * A2 / ub)
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    q = env.pq.Quantity(x, ua ** 2 * ub)
    if when == "between":
        env.clsA.set_default_unit(A2)
    # uc * ub * A2: k3*ka*A/(k2*B) * ...
    r = q.rescale(A2 ** 2 * ub)
    env.eq(env.vals(r), [v * (k1 / ka) ** 2 for v in env.vals(x)], "rescale")
    env.same_dims(r, {"qa2": 2, "ub": 1}, "rescale")
    r = q.rescale(uc ** 2 * ub ** 3)
    env.eq(env.vals(r), [v * (k1 / ka / k3) ** 2 for v in env.vals(x)], "rescale-derived")
    env.clsA.set_default_unit(A2)
    p = env.pq.Quantity(y, A * ua * ub)
    t = q + p
    env.eq(env.vals(t), [a + b / k1 for a, b in zip(env.vals(x), env.vals(y))], "sum", scale=[env.absum(a, b / k1) for a, b in zip(env.vals(x), env.vals(y))])
    env.same_dims(t, {"ua": 2, "ub": 1}, "sum")
    env.clsA.set_default_unit(A)
    r = q.rescale(uc ** 2 * ub ** 3)
    env.eq(env.vals(r), [v * (k1 / ka / k3) ** 2 for v in env.vals(x)], "rescale-after")


UNITS = {"J": (2, 1, -2, 0), "N": (1, 1, -2, 0), "kPa": (-1, 1, -2, 0), "V": (2, 1, -3, -1), "mile": (1, 0, 0, 0), "minute": (0, 0, 1, 0),
         "Hz": (0, 0, -1, 0), "ohm": (2, 1, -3, -2), "L": (3, 0, 0, 0), "oz": (0, 1, 0, 0), "eV": (2, 1, -2, 0), "C": (0, 0, 1, 1)}
DIMS = ["length", "mass", "time", "current"]


def model(env, i, d, sel):
    """exponents d over the selected default units"""
    return {env.pq.Quantity(1.0, sel[n]).dimensionality.__iter__().__next__().name: e for n, e in zip(DIMS, d) if e}


@harness("C13", unit=sorted(UNITS))
def builtin(env, unit):
    """every combination of default length, mass, time and current: exactly those units, same physical value"""
    pq = env.pq
    x = env.arr("x", (1,), nonzero=True)
    q = pq.Quantity(x, unit)
    d = UNITS[unit]
    sel = {}
    for n, e in zip(DIMS, d):
        sel[n] = env.choice(n, DEF[n]) if e else DEF[n][0]
    pq.set_default_units(**sel)
    r = q.simplified
    env.same_dims(r, model(env, 0, d, sel), "simplified")
    env.eq(env.vals(r.rescale(unit)), env.vals(x), "value")
    tgt = 1 * pq.dimensionless
    for n, e in zip(DIMS, d):
        tgt = tgt * pq.Quantity(1.0, sel[n]) ** e
    env.eq(env.vals(r), env.vals(q.rescale(tgt)), "conversion")
    env.same_dims(q, env.dims(pq.Quantity(1.0, unit)), "operand")


@harness("C13", system=["SI", "si", "cgs", "CGS"], extra=[{}, {"length": "ft"}, {"time": "hour", "mass": "lb"}], first=[{}, {"length": "km", "mass": "oz", "time": "day"}])
def systems(env, system, extra, first):
    """unit systems, with individual defaults on top of them"""
    pq = env.pq
    if first:
        pq.set_default_units(**first)
    pq.set_default_units(system, **extra)
    want = {"length": "cm", "mass": "g", "time": "s", "current": "A"} if system.lower() == "cgs" else \
        {"length": "m", "mass": "kg", "time": "s", "current": "A"}
    want.update(extra)
    x = env.arr("x", (2,))
    for u in ("J", "V", "L", "N"):
        r = pq.Quantity(x, u).simplified
        env.same_dims(r, model(env, 0, UNITS[u], want), "system-" + u)
        env.eq(env.vals(r.rescale(u)), env.vals(x), "value-" + u)


BAD = [("length", "kg"), ("mass", "m"), ("time", "Hz"), ("current", "s"), ("length", "m**2"), ("temperature", "m"), ("information", "kg"),
       ("substance", "m"), ("currency", "m"), ("luminous_intensity", "mol"), ("length", "J")]


@harness("C13", bad=BAD, obj=[False, True], first=[{}, {"length": "ft", "mass": "g"}])
def refused(env, bad, obj, first):
    """an incompatible unit is refused with TypeError / ValueError and the default stays"""
    pq = env.pq
    pq.set_default_units(**first)
    n, u = bad
    x = env.arr("x", (1,))
    before = [(env.vals(r), env.dims(r)) for r in (pq.Quantity(x, t).simplified for t in ("J", "V", "K", "byte"))]
    arg = {n: pq.Quantity(1.0, u) if obj else u}
    env.raises((TypeError, ValueError), lambda: pq.set_default_units(**arg), "refused")
    after = [(env.vals(r), env.dims(r)) for r in (pq.Quantity(x, t).simplified for t in ("J", "V", "K", "byte"))]
    for a, b in zip(before, after):
        env.eq(b[0], a[0], "default-value")
        env.check(a[1] == b[1], "default-units")


@harness("C13", sysname=["foo", "", "S.I.", "mks", "SI "])
def unknown_system(env, sysname):
    pq = env.pq
    pq.set_default_units(length="ft")
    x = env.arr("x", (1,))
    b = pq.Quantity(x, "J").simplified
    env.raises(ValueError, lambda: pq.set_default_units(sysname), "system")
    env.raises(ValueError, lambda: pq.set_default_units(system=sysname, length="m"), "system")
    a = pq.Quantity(x, "J").simplified
    env.check(env.dims(a) == env.dims(b), "default-units")
    env.eq(env.vals(a), env.vals(b), "default-value")
    env.raises((LookupError, TypeError, ValueError), lambda: pq.set_default_units(length="no_such_unit"), "unknown-unit")
    a = pq.Quantity(x, "J").simplified
    env.check(env.dims(a) == env.dims(b), "default-units")


@harness("C13", n=[2], thorough={"n": [2, 3]})
def histories(env, n):
    """sequences of default selections: the last selection for each dimension decides, nothing else changes"""
    pq = env.pq
    x = env.arr("x", (1,))
    cur = {"length": "m", "mass": "kg", "time": "s", "current": "A"}
    q = pq.Quantity(x, "J")
    kept = q.simplified
    kd, kv = env.dims(kept), list(env.vals(kept))
    for i in range(n):
        c = env.choice("step%d" % i, ["length=ft", "length=cm", "mass=g", "time=hour", "cgs", "SI", "bad", "length=m"])
        if c == "bad":
            env.attempt(lambda: pq.set_default_units(length="kg"))
        elif c in ("cgs", "SI"):
            pq.set_default_units(c)
            cur.update({"length": "cm", "mass": "g", "time": "s"} if c == "cgs" else
                       {"length": "m", "mass": "kg", "time": "s", "current": "A"})
        else:
            k, v = c.split("=")
            pq.set_default_units(**{k: v})
            cur[k] = v
        r = q.simplified
        env.same_dims(r, model(env, 0, UNITS["J"], cur), "history")
        env.eq(env.vals(r.rescale("J")), env.vals(x), "history-value")
        env.eq(env.vals(q.rescale("eV").rescale("J")), env.vals(x), "conversion")
    env.check(env.dims(kept) == kd, "earlier-result")
    env.eq(env.vals(kept), kv, "earlier-result")


OWN = ["plain", "other-class", "compound", "product", "constant", "text", "text-product"]
WRONG = ["square", "other-dimension", "none-dimension", "mixed", "other-class-unit", "text-square", "constant-wrong"]


@harness("C13", kind=OWN + WRONG, before=[False, True])
def class_of_default(env, kind, before):
    """the dimension, not the class, of a unit decides whether it may be a default"""
    pq = env.pq
    A, B, A2, B2, ua, ub, (ka, kb, k1, k2) = fresh(env)
    if before:
        env.clsA.set_default_unit(A2)
    z = env.real("z", pos=True)
    name = {"plain": "ua", "text": "ua"}.get(kind, "own")
    u, size, dims = {
        "plain": lambda: (ua, k1, {"ua": 1}), "other-class": lambda: (env.clsB("own", z * A), z, {"own": 1}), "compound": lambda: (pq.CompoundUnit("ua*ub/qb"), k1 * k2, {"(ua*ub/qb)": 1}),
        "product": lambda: (pq.Quantity(1.0, ua), k1, {"ua": 1}), "constant": lambda: (pq.UnitConstant("own", z * A), z, {"own": 1}), "text": lambda: ("ua", k1, {"ua": 1}),
        "text-product": lambda: ("ua*ub/qb*qb/ub", k1, {"ua": 1}),
        "square": lambda: (env.clsA("own", z * A ** 2), 0, 0), "other-dimension": lambda: (env.clsA("own", z * B), 0, 0), "none-dimension": lambda: (env.clsA("own", z * pq.dimensionless), 0, 0),
        "mixed": lambda: (env.clsA("own", z * A * B), 0, 0), "other-class-unit": lambda: (ub, 0, 0), "text-square": lambda: ("qa**2", 0, 0), "constant-wrong": lambda: (pq.UnitConstant("own", z * B), 0, 0)}[kind]()
    x = env.arr("x", (2,))
    q = pq.Quantity(x, A * ub)
    if kind in WRONG:
        env.raises((TypeError, ValueError), lambda: env.clsA.set_default_unit(u), "not-refused")
        size, dims = (ka, {"qa2": 1}) if before else (1, {"qa": 1})
    else:
        env.clsA.set_default_unit(u)
    for _ in range(2):
        r = q.simplified
        env.same_dims(r, dict(dims, qb=1), kind)
        env.eq(env.vals(r), [v * k2 / size for v in env.vals(x)], kind)
        if kind not in WRONG:
            env.clsA.set_default_unit(A2)
            env.clsA.set_default_unit(u)


KIND = {"length": "UnitLength", "mass": "UnitMass", "time": "UnitTime", "current": "UnitCurrent", "temperature": "UnitTemperature", "substance": "UnitSubstance", "luminous_intensity": "UnitLuminousIntensity",
        "information": "UnitInformation", "currency": "UnitCurrency"}
SI = {"length": "m", "mass": "kg", "time": "s", "current": "A", "temperature": "K", "substance": "mol", "luminous_intensity": "cd", "information": "bit", "currency": "money"}


@harness("C13", system=[None, "SI", "cgs"], kinds=[[k] for k in KIND] + [["currency", "length"], ["current", "temperature", "time"], ["information", "substance", "mass", "luminous_intensity"], sorted(KIND)], form=["unit", "text"],
         how=["once", "twice", "again", "positional"], filt=lambda system, kinds, form, how: form == "unit" or how == "once")
def every_kind(env, system, kinds, form, how):
    """defaults of every kind, of any number of kinds at once, alone or together with a system: the individual ones prevail"""
    pq = env.pq
    U = pq.unitquantity
    U.UnitCurrency("money")
    own, k = {}, {}
    for n in KIND:
        k[n] = env.real("k_" + n, pos=True)
        own[n] = getattr(U, KIND[n])("own_" + n, k[n] * pq.unit_registry[SI[n]])
    arg = {n: own[n] if form == "unit" else "own_" + n for n in kinds}
    if how == "again":
        pq.set_default_units(**{n: own[n] for n in KIND})
    if how == "positional":
        order = ["currency", "current", "information", "length", "luminous_intensity", "mass", "substance", "temperature", "time"]
        pq.set_default_units(system, *[arg.get(n) for n in order])
    else:
        pq.set_default_units(system, **arg)
        if how == "twice":
            pq.set_default_units(**arg)
    x = env.arr("x", (2,))
    total = None
    for n in KIND:
        base = {"length": "cm", "mass": "g"}.get(n, SI[n]) if system == "cgs" else SI[n]
        per = {"cm": 100, "g": 1000}.get(base, 1)
        # a system says nothing of information and currency
        mine = n in kinds or how == "again" and (system is None or n in ("information", "currency") or system == "cgs" and n == "current")
        name = "own_" + n if mine else pq.unit_registry[base].name
        f = 1 / k[n] if mine else per
        r = pq.Quantity(x, SI[n]).simplified
        env.same_dims(r, {name: 1}, n)
        env.eq(env.vals(r), [v * f for v in env.vals(x)], n)
        r = pq.Quantity(x, own[n] ** 2).simplified
        env.same_dims(r, {name: 2}, n + "-own")
        env.eq(env.vals(r), [v * (k[n] * f) ** 2 for v in env.vals(x)], n + "-own")
        env.eq(env.vals(pq.Quantity(x, own[n]).rescale(SI[n])), [v * k[n] for v in env.vals(x)], n + "-conversion")


indep.register("C13")
