"""C23 preferred units only change the unit, never the value"""
import itertools
from symq import independent as indep
from symq.harness import harness


def setup(env):
    """units of three dimensions, two of each kind, with base-unit expansion {base: exponent} and size"""
    pq = env.pq
    A, B = env.bases()
    k = [env.real("k%d" % i, pos=True) for i in range(6)]
    la, lx = env.unit("la", k[0] * A), env.unit("lx", k[1] * A)
    ta, tb = env.unit("ta", k[2] * B), env.unit("tb", k[3] * B)
    va, vb = env.unit("va", k[4] * la / ta), env.unit("vb", k[5] * A / B)
    one = {"la": ((1, 0), k[0]), "lx": ((1, 0), k[1]), "ta": ((0, 1), k[2]), "tb": ((0, 1), k[3]),
           "va": ((1, -1), k[4] * k[0] / k[2]), "vb": ((1, -1), k[5]), "qa": ((1, 0), 1), "qb": ((0, 1), 1)}
    return {"la": la, "lx": lx, "ta": ta, "tb": tb, "va": va, "vb": vb, "qa": A, "qb": B}, one


def product(units, one, spec):
    """spec: {unit: exponent} -> unit product, expansion, size"""
    u, d, s = None, [0, 0], 1
    for n, e in spec.items():
        t = units[n] if e == 1 else units[n] ** e
        u = t if u is None else u * t
        (a, b), k = one[n]
        d[0] += a * e
        d[1] += b * e
        s = s * k ** e
    return u, tuple(d), s


LISTS = [["lx"], ["tb"], ["vb"], []] + [list(p) for p in itertools.permutations(["la", "lx", "vb"])] + [
    ["tb", "vb", "lx"], ["ta", "va", "qa"], ["lx", "la", "ta"], ["vb", "tb", "va"], ["lx/tb", "vb", "lx"], ["va*ta", "lx/ta", "lx*lx"],
    ["lx**2", "lx", "tb**-1"], ["ta**-1", "lx**2", "va**2"], ["1/tb", "va**-1", "lx*tb"], ["lx**3/tb**2", "lx**2/tb**3", "lx**-2/tb", "lx**12", "lx**0.5"], ["lx**2/tb**3", "lx**3/tb**2", "lx*tb", "lx/tb"]]
SPECS = {"la": {"la": 1}, "va": {"va": 1}, "la/ta": {"la": 1, "ta": -1}, "va*tb": {"va": 1, "tb": 1}, "la**2": {"la": 2}, "la*lx": {"la": 1, "lx": 1},
         "ta**-1": {"ta": -1}, "va/la": {"va": 1, "la": -1}, "qa": {"qa": 1}, "tb": {"tb": 1}, "la/lx": {"la": 1, "lx": -1}, "vb**3": {"vb": 3},
         "la**3/ta**2": {"la": 3, "ta": -2}, "la**2/ta**3": {"la": 2, "ta": -3}, "ta/la": {"ta": 1, "la": -1}, "la**0.5": {"la": 0.5}, "la**21": {"la": 21}, "la**12": {"la": 12}}
PS = {"lx/tb": {"lx": 1, "tb": -1}, "va*ta": {"va": 1, "ta": 1}, "lx/ta": {"lx": 1, "ta": -1}, "lx*lx": {"lx": 2}, "lx**2": {"lx": 2}, "tb**-1": {"tb": -1},
      "ta**-1": {"ta": -1}, "va**2": {"va": 2}, "1/tb": {"tb": -1}, "va**-1": {"va": -1}, "lx*tb": {"lx": 1, "tb": 1},
      "lx**2/tb**3": {"lx": 2, "tb": -3}, "lx**3/tb**2": {"lx": 3, "tb": -2}, "lx**-2/tb": {"lx": -2, "tb": -1}, "lx**0.5": {"lx": 0.5}, "lx**12": {"lx": 12}}


def spec(n):
    return PS.get(n) or {n: 1}


def compare(env, r, x, src, want, uncertain, label):
    """r is the quantity of magnitudes x in src expressed in the unit product want"""
    dst, _, g = want
    _, _, f = src
    env.klass(r, env.pq.UncertainQuantity if uncertain else env.pq.Quantity, label)
    env.eq(env.vals(r), [t * f / g for t in env.vals(x)], label)


@harness("C23", prefer=list(range(len(LISTS))), q=list(SPECS), how=["preferred", "rescale"], shape=[(2,), ()], uncertain=[False, True],
         filt=lambda prefer, q, how, shape, uncertain: (how == "preferred" and shape == (2,) and not uncertain) or prefer in (4, 11))
def convert(env, prefer, q, how, shape, uncertain):
    """the first listed unit of the same dimension is used, whatever precedes or follows it"""
    pq = env.pq
    units, one = setup(env)
    names = LISTS[prefer]
    prods = [product(units, one, spec(n)) for n in names]
    src = product(units, one, SPECS[q])
    x = env.arr("x", shape)
    Q = pq.UncertainQuantity(x, src[0], env.arr("s", shape, lo=0)) if uncertain else pq.Quantity(x, src[0])
    s = env.snap(Q)
    pq.quantity.PREFERRED = [p[0] for p in prods]
    fit = [(n, p) for n, p in zip(names, prods) if p[1] == src[1]]
    if not fit:
        env.raises(Exception, Q.rescale_preferred if how == "preferred" else Q.rescale, "none-listed")
    else:
        r = Q.rescale_preferred() if how == "preferred" else Q.rescale()
        n, p = fit[0]
        env.same_dims(r, spec(n), "preferred")
        env.shape(r, shape, "preferred")
        compare(env, r, x, src, p, uncertain, "preferred")
        if uncertain:
            env.same_dims(r.uncertainty, spec(n), "uncertainty")
            env.eq(env.vals(r.uncertainty), [t * src[2] / p[2] for t in env.vals(Q.uncertainty)], "uncertainty")
    env.unchanged(s, Q, "operand")
    env.check(len(pq.quantity.PREFERRED) == len(names), "list-changed")


@harness("C23", dt=["f4", "f8", "c8", "c16", "i8", "i4"], how=["preferred", "rescale"], q=["la", "va", "lx", "la**2"], shape=[(2,), (), (0,), (2, 1)])
def as_explicit(env, dt, how, q, shape):
    """the result is that of converting to the unit explicitly: value, units, class and type of the numbers"""
    pq = env.pq
    units, one = setup(env)
    pq.quantity.PREFERRED = [units["tb"], units["lx"], units["vb"], units["lx"] ** 2]
    want = {"la": units["lx"], "va": units["vb"], "lx": units["lx"], "la**2": units["lx"] ** 2}[q]
    Q = pq.Quantity(env.arr("x", shape, dt), product(units, one, SPECS.get(q) or {q: 1})[0])
    s = env.snap(Q)
    r = Q.rescale_preferred() if how == "preferred" else Q.rescale()
    t = Q.rescale(want)
    env.check(type(r) is type(t), "class")
    env.dtype_is(r, t.dtype, "type")
    env.shape(r, t.shape, "shape")
    env.same_dims(r, env.dims(t), "units")
    env.eq(env.vals(r), env.vals(t), "value")
    env.unchanged(s, Q, "operand")


RATIOS = [["1"], ["pz"], ["lx", "1"], ["1", "pz"], ["pz", "1"], ["rr", "pz", "1"], ["tb", "vb", "pz"], ["la/lx", "1"], ["lx", "tb"], ["va*ta/lx", "pz"]]
RS = ["number", "la/lx", "pz", "va*ta/lx", "pz**2", "lx*la**-1*pz"]


@harness("C23", prefer=list(range(len(RATIOS))), q=RS, how=["preferred", "rescale"], shape=[(2,), ()])
def ratios(env, prefer, q, how, shape):
    """preferred units of dimensionless quantities"""
    pq = env.pq
    units, one = setup(env)
    z, y = env.real("z", pos=True), env.real("y", pos=True)
    K = {n: k for n, (_, k) in one.items()}
    la, lx, va, ta = [units[n] for n in ("la", "lx", "va", "ta")]
    pc, rr = env.unit("pz", z * pq.dimensionless), env.unit("rr", y * lx / la)
    U = {"1": (pq.dimensionless, {}, 1), "pz": (pc, {"pz": 1}, z), "rr": (rr, {"rr": 1}, y * K["lx"] / K["la"]), "la/lx": (la / lx, {"la": 1, "lx": -1}, K["la"] / K["lx"]),
         "va*ta/lx": (va * ta / lx, {"va": 1, "ta": 1, "lx": -1}, K["va"] * K["ta"] / K["lx"]), "number": (pq.dimensionless, {}, 1),
         "pz**2": (pc ** 2, {"pz": 2}, z * z), "lx*la**-1*pz": (lx * la ** -1 * pc, {}, K["lx"] / K["la"] * z)}
    names = RATIOS[prefer]
    x = env.arr("x", shape)
    Q = pq.Quantity(x, U[q][0])
    s = env.snap(Q)
    pq.quantity.PREFERRED = [U[n][0] if n in U else units[n] for n in names]
    fit = [n for n in names if n in U]
    f = Q.rescale_preferred if how == "preferred" else Q.rescale
    if not fit:
        env.raises(Exception, f, "none-listed")
    else:
        r = f()
        env.same_dims(r, U[fit[0]][1], "preferred")
        env.shape(r, shape, "preferred")
        compare(env, r, x, U[q], U[fit[0]], False, "preferred")
    env.unchanged(s, Q, "operand")


@harness("C23", prefer=["lx", "vb", "lx**2", "tb", "lx**2/tb**3", "lx**-2/tb"])
def every_exponent(env, prefer):
    """the source may be written with any exponents"""
    pq = env.pq
    units, one = setup(env)
    a, b = env.int("a", -3, 3), env.int("b", -3, 3)
    x = env.arr("x", (1,))
    Q = pq.Quantity(x, units["la"] ** a * units["tb"] ** b)
    if not env.dims(Q):
        env.assume(False)
    s = env.snap(Q)
    p = product(units, one, spec(prefer))
    pq.quantity.PREFERRED = [p[0]]
    a, b = int(a), int(b)
    k = (one["la"][1], one["tb"][1])
    st, r = env.attempt(Q.rescale_preferred)
    if (a, b) == p[1]:
        env.check(st == "ok", "refused")
        if st == "ok":
            env.same_dims(r, spec(prefer), "preferred")
            env.eq(env.vals(r), [t * k[0] ** a * k[1] ** b / p[2] for t in env.vals(x)], "preferred")
    else:
        env.check(st == "exc", "none-listed")
    env.unchanged(s, Q, "operand")


@harness("C23", form=["unit", "quantity", "compound", "string-made"])
def forms(env, form):
    """units, products of units and compound units may be listed"""
    pq = env.pq
    units, one = setup(env)
    src = product(units, one, {"la": 1, "ta": -1})
    entry, dims, size = {
        "unit": lambda: (units["vb"], {"vb": 1}, one["vb"][1]),
        "quantity": lambda: (units["lx"] / units["tb"], {"lx": 1, "tb": -1}, one["lx"][1] / one["tb"][1]),
        "compound": lambda: (pq.CompoundUnit("lx/tb"), {"(lx/tb)": 1}, one["lx"][1] / one["tb"][1]),
        "string-made": lambda: (pq.Quantity(1.0, "lx/tb"), {"lx": 1, "tb": -1}, one["lx"][1] / one["tb"][1])}[form]()
    x = env.arr("x", (2,))
    Q = pq.Quantity(x, src[0])
    pq.quantity.PREFERRED = [units["la"], entry, units["va"]]
    r = Q.rescale()
    env.same_dims(r, dims, form)
    env.eq(env.vals(r), [t * src[2] / size for t in env.vals(x)], form)


@harness("C23", first=["lx", "none", "tb"])
def history(env, first):
    """a changed list takes effect at once; converting there and back restores the value"""
    pq = env.pq
    units, one = setup(env)
    x = env.arr("x", (2,))
    v = env.vals(x)
    Q = pq.Quantity(x, units["la"])
    pq.quantity.PREFERRED = {"lx": [units["lx"]], "none": [], "tb": [units["tb"]]}[first]
    st, r = env.attempt(Q.rescale)
    env.check((st == "ok") == (first == "lx"), "first")
    pq.quantity.PREFERRED = [units["tb"], units["qa"]]
    r = Q.rescale()
    env.same_dims(r, {"qa": 1}, "second")
    env.eq(env.vals(r), [t * one["la"][1] for t in v], "second")
    pq.quantity.PREFERRED = [units["la"]]
    r = r.rescale()
    env.same_dims(r, {"la": 1}, "back")
    env.eq(env.vals(r), v, "back")


@harness("C23", table=[("mV", "V", 1000), ("pA", "A", 1e12), ("mm", "inch", 25.4), ("kPa", "atm", 101.325), ("ms", "minute", 60000), ("mM", "mol/l", 1000)])
def builtin(env, table):
    """built-in units, all in one list"""
    pq = env.pq
    x = env.arr("x", (2,))
    pq.quantity.PREFERRED = [getattr(pq, n) for n in ("mV", "pA", "mm", "kPa", "ms", "mM")]
    Q = pq.Quantity(x, table[1])
    r = Q.rescale_preferred()
    env.check(r.dimensionality == getattr(pq, table[0]).dimensionality, "preferred")
    env.eq(env.vals(r), [t * table[2] for t in env.vals(x)], "preferred", scale=[env.absum(t * table[2]) for t in env.vals(x)])


indep.register("C23")
