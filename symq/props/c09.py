"""C09 universal functions apply the unit rule of their mathematics"""
from symq import independent as indep
from symq.harness import harness
from symq.props.c05 import bc

SH = {"arr": (2,), "0d": ()}
SAME = ["fabs", "absolute", "conjugate", "negative", "positive", "rint", "floor", "ceil"]
DIMLESS = ["log", "log10", "log2", "log1p", "exp", "exp2", "expm1"]
TRIG = ["sin", "cos", "tan", "sinh", "cosh", "tanh"]
ARC = ["arcsin", "arccos", "arctan", "arcsinh", "arccosh", "arctanh"]
UNIFORM = ["add", "subtract", "mod", "fmod", "remainder", "hypot", "maximum", "minimum"]
PREDS = ["isnan", "isinf", "isfinite"]
DOM = {"arcsin": (-1, 1), "arccos": (-1, 1), "arctanh": ("-63/64", "63/64"), "arccosh": (1, 50), "log": ("1/64", 50), "log10": ("1/64", 50),
       "log2": ("1/64", 50), "log1p": ("-63/64", 50), "exp": (-20, 20), "exp2": (-20, 20), "expm1": (-20, 20),
       "sinh": (-20, 20), "cosh": (-20, 20), "tan": ("-3/2", "3/2")}


def dom(name):
    from fractions import Fraction
    lo, hi = DOM.get(name, (None, None))
    return dict(lo=None if lo is None else float(Fraction(lo)), hi=None if hi is None else float(Fraction(hi)))


def units(env):
    A, B = env.bases()
    k1, k2, l1 = [env.real(n, pos=True) for n in ("k1", "k2", "l1")]
    env.k = (k1, k2, l1)
    return env.unit("ua", k1 * A), env.unit("ub", k2 * A), env.unit("va", l1 * B)


def plain(env, name, *args):
    """the numerical function on the bare magnitudes, element by element"""
    return env.num(name, *args)


@harness("C09", f=SAME + ["square", "reciprocal", "sqrt"], sh=["arr", "0d"], out=[None, "fresh", "self"])
def unary(env, f, sh, out):
    """same units / square / inverse / root; also into an output quantity that had other units"""
    ua, ub, va = units(env)
    e = env.int("e", -2, 3)
    k = dict(pos=True) if f in ("sqrt", "reciprocal") else (dict(lo=-9, hi=9) if f in ("rint", "floor", "ceil") else {})
    x = env.arr("x", SH[sh], **k)
    v = list(env.vals(x))
    q = env.pq.Quantity(x, ua ** e / va)
    want = [plain(env, f, t) for t in v]
    s = env.snap(q)
    p = {"square": 2, "reciprocal": -1, "sqrt": 0.5}.get(f, 1)
    fn = getattr(env.np, f)
    if out is None:
        r = fn(q)
    elif out == "self":
        r = fn(q, out=q)
        env.check(r is q, f + ":out-returned")
    else:
        o = env.pq.Quantity(env.arr("o", SH[sh]), ub)
        r = fn(q, out=o)
        env.check(r is o, f + ":out-returned")
    env.klass(r, env.pq.Quantity, f)
    env.same_dims(r, {"ua": e * p, "va": -p}, f)
    env.shape(r, SH[sh], f)
    env.eq(env.vals(r), want, f)
    if out != "self":
        env.unchanged(s, q, "operand")


@harness("C09", f=["multiply", "divide", "true_divide", "floor_divide"], other=["q", "q0", "number", "array", "unit"],
         side=["left", "right"], out=[None, "fresh", "left"], filt=lambda f, other, side, out: not (out == "left" and side == "right"))
def products(env, f, other, side, out):
    """product and quotient of units; plain numbers count as dimensionless"""
    ua, ub, va = units(env)
    b = dict(lo=-9, hi=9) if f == "floor_divide" else {}
    x, y = env.arr("x", (2,), nonzero=True, **b), env.arr("y", (2,), nonzero=True, **b)
    z = env.real("z", nonzero=True, **b)
    q = env.pq.Quantity(x, ua ** 2)
    p, w, d = {"q": (env.pq.Quantity(y, va * ua), env.vals(y), {"va": 1, "ua": 1}), "q0": (env.pq.Quantity(z, va), [z], {"va": 1}),
               "number": (z, [z], {}), "array": (y, env.vals(y), {}), "unit": (va, [1], {"va": 1})}[other]
    v, w = list(env.vals(x)), list(w) * (1 if len(w) == 2 else 2)
    s = 1 if f == "multiply" else -1
    a, b, av, bv, da, db = (q, p, v, w, {"ua": 2}, d) if side == "left" else (p, q, w, v, d, {"ua": 2})
    want = [plain(env, f, i, j) for i, j in zip(av, bv)]
    fn = getattr(env.np, f)
    if out is None:
        r = fn(a, b)
    else:
        o = a if out == "left" else env.pq.Quantity(env.arr("o", (2,)), ub)
        r = fn(a, b, out=o)
        env.check(r is o, f + ":out-returned")
    env.is_quantity(r, f)
    env.same_dims(r, env.mul_dims(da, db, s), f)
    if f == "floor_divide" and not env.symbolic:
        for g, t, i, j in zip(env.vals(r), want, av, bv):
            env.obs.append((f, None))
            env.check(abs(g - t) <= 1e-9 * abs(t) or abs(i / j - round(i / j)) < 1e-9, f)
    else:
        env.eq(env.vals(r), want, f)


@harness("C09", f=UNIFORM, out=[None, "fresh"])
def uniform(env, f, out):
    """equal units in, the same units out (also in another writing order of the units)"""
    ua, ub, va = units(env)
    k = dict(pos=True, hi=20) if f in ("mod", "fmod", "remainder") else {}
    x, y = env.arr("x", (2,), **k), env.arr("y", (2,), **k)
    q, p = env.pq.Quantity(x, ua * va), env.pq.Quantity(y, va * ua)
    v, w = env.vals(x), env.vals(y)
    fn = getattr(env.np, f)
    s1, s2 = env.snap(q), env.snap(p)
    if out is None:
        r = fn(q, p)
    else:
        o = env.pq.Quantity(env.arr("o", (2,)), ub)
        r = fn(q, p, out=o)
        env.check(r is o, f + ":out-returned")
    env.is_quantity(r, f)
    env.same_dims(r, {"ua": 1, "va": 1}, f)
    want = [plain(env, f, i, j) for i, j in zip(v, w)]
    if f in ("mod", "fmod", "remainder"):
        env.eqmod(env.vals(r), want, w, f, [abs(i) for i in v])
    else:
        env.eq(env.vals(r), want, f, scale=[abs(i) + abs(j) for i, j in zip(v, w)])
    env.unchanged(s1, q, "left")
    env.unchanged(s2, p, "right")


@harness("C09", f=UNIFORM + ["arctan2"], bad=["dim", "scale", "number", "array", "zero-first", "zero-last"], side=["left", "right"],
         filt=lambda f, bad, side: not (bad.startswith("zero") and side == "left" and f in ("mod", "fmod", "remainder")))
def not_uniform(env, f, bad, side):
    """other units, or plain numbers that are not all zero: refused with ValueError"""
    ua, ub, va = units(env)
    q = env.pq.Quantity(env.arr("x", (2,), pos=True), ua)
    y = env.arr("y", (2,), pos=True)
    if bad.startswith("zero"):
        # a zero fits any units, other numbers do not
        y.reshape(-1)[0 if bad == "zero-first" else 1] = 0.0
    p = {"dim": env.pq.Quantity(y, va), "scale": env.pq.Quantity(y, ub), "number": env.real("z", nonzero=True)}.get(bad, y)
    s = env.snap(q)
    fn = getattr(env.np, f)
    env.raises(ValueError, (lambda: fn(q, p)) if side == "left" else (lambda: fn(p, q)), f)
    env.unchanged(s, q, "operand")


@harness("C09", sh=["arr", "0d"], kind=["same", "plain", "dimensionless"])
def arctan2(env, sh, kind):
    """two arguments of equal units give a plain angle without units of length"""
    ua, ub, va = units(env)
    u = ua if kind == "same" else env.pq.dimensionless
    x, y = env.arr("x", SH[sh]), env.arr("y", SH[sh], pos=True)
    q = env.pq.Quantity(x, u)
    p = y if kind == "plain" else env.pq.Quantity(y, u)
    r = env.np.arctan2(q, p)
    env.check(not [n for n in env.dims(r) if n not in ("radian",)], "arctan2:units")
    env.eq(env.vals(r), [plain(env, 'arctan2', a, b) for a, b in zip(env.vals(x), env.vals(y))], "arctan2")


@harness("C09", sh=["arr", "0d"], p=[2, -1, 0.5, 3, "sym", "array"], out=[None, "fresh"])
def power(env, sh, p, out):
    """np.power raises value and units by a uniform exponent"""
    ua, ub, va = units(env)
    x = env.arr("x", SH[sh], pos=True)
    v = env.vals(x)
    q = env.pq.Quantity(x, ua / va)
    n = e = p
    if p == "sym":
        n = e = env.int("p", -3, 3)
    if p == "array":
        if sh == "0d":
            n, e = env.np.array(2.0), 2
        else:
            n, e = env.np.array([2.0, 2.0]), 2
    if out is None:
        r = env.np.power(q, n)
    else:
        o = env.pq.Quantity(env.arr("o", SH[sh]), ub)
        r = env.np.power(q, n, out=o)
    env.same_dims(r, {"ua": e, "va": -e}, "power")
    env.eq(env.vals(r), [i ** e for i in v], "power")


@harness("C09", shape=[(3,), (2, 2), (1, 3)], how=["ufunc", "operator", "inplace", "out", "broadcast"], dt=["f8", "i8"],
         filt=lambda shape, how, dt: dt == "f8" or how in ("ufunc", "operator"))
def power_arrays(env, shape, how, dt):
    """arrays of exponents, whichever elements differ: uniform ones act as the number, others are refused"""
    ua, ub, va = units(env)
    shape = tuple(shape)
    n = 4 if shape == (2, 2) else 3
    es = [env.choice("e%d" % i, [2, -1] if n == 4 else [2, 3, -1]) for i in range(n)]
    x = env.arr("x", (n,) if how == "broadcast" else shape, pos=True)
    if how == "broadcast":
        shape = env.np.broadcast(env.np.zeros((n,)), env.np.zeros(shape)).shape if shape != (2, 2) else (2, 2)
        x = x if shape != (2, 2) else x[:2]
    v = list(env.vals(x))
    v = v * (len(es) // len(v))
    q = env.pq.Quantity(x, ua / va)
    p = env.np.array(es, dtype=dt).reshape(shape)
    s = env.snap(q)
    o = env.pq.Quantity(env.arr("o", shape), ub)

    def go():
        if how == "operator":
            return q ** p
        if how == "inplace":
            t = q
            t **= p
            return t
        if how == "out":
            return env.np.power(q, p, out=o)
        return env.np.power(q, p)
    if len(set(es)) > 1:
        env.raises(ValueError, go, "power")
        return env.unchanged(s, q, "operand")
    r = go()
    env.same_dims(r, {"ua": es[0], "va": -es[0]}, "power")
    env.shape(r, shape, "power")
    env.eq(env.vals(r), [i ** es[0] for i in v], "power")


@harness("C09", bad=["nonuniform", "dimensional", "sym"])
def power_refused(env, bad):
    ua, ub, va = units(env)
    q = env.pq.Quantity(env.arr("x", (2,), pos=True), ua)
    y = env.arr("y", (2,))
    if bad == "sym":
        env.assume(env.vals(y)[0] != env.vals(y)[1])
    n = {"nonuniform": env.np.array([1.0, 2.0]), "dimensional": env.pq.Quantity(2.0, va), "sym": y}[bad]
    s = env.snap(q)
    env.raises(ValueError, lambda: env.np.power(q, n), "power")
    env.unchanged(s, q, "operand")


@harness("C09", f=DIMLESS + ARC, sh=["arr", "0d"], out=[None, "fresh"])
def dimensionless(env, f, sh, out):
    """logarithms, exponentials and inverse functions of dimensionless quantities; the inverse ones give radians"""
    ua, ub, va = units(env)
    x = env.arr("x", SH[sh], **dom(f))
    q = env.pq.Quantity(x)
    v = list(env.vals(x))
    want = [plain(env, f, t) for t in v]
    s = env.snap(q)
    if out is None:
        r = getattr(env.np, f)(q)
    else:
        r = getattr(env.np, f)(q, out=env.pq.Quantity(env.arr("o", SH[sh]), ub))
    env.is_quantity(r, f)
    env.same_dims(r, {"radian": 1} if f in ARC else {}, f)
    env.eq(env.vals(r), want, f)
    env.unchanged(s, q, "operand")


@harness("C09", f=DIMLESS + ARC + TRIG + ["radians", "degrees"], u=["ua", "ua**-2", "ua/va", "ua/ub", "percent", "degree**2"])
def wrong_units(env, f, u):
    """arguments whose units the function does not allow: ValueError"""
    ua, ub, va = units(env)
    q = env.pq.Quantity(env.arr("x", (2,), lo=0.5, hi=0.75), u)
    s = env.snap(q)
    if u == "ua/ub" and f not in DIMLESS + ARC:
        # may be an angle in disguise (radian or degree): if accepted the value has to be right
        st, r = env.attempt(getattr(env.np, f), q)
        if st == "exc":
            env.check(isinstance(r, ValueError), f + ":wrong-exception-%s" % type(r).__name__)
        elif f in TRIG:
            env.same_dims(r, {}, f)
            env.eq(env.vals(r), [plain(env, f, t * env.k[0] / env.k[1]) for t in s[2]], f)
        return
    env.raises(ValueError, lambda: getattr(env.np, f)(q), f)
    env.unchanged(s, q, "operand")


@harness("C09", f=TRIG, u=["radian", "degree", "dimensionless", "arcminute"], sh=["arr", "0d"])
def trig(env, f, u, sh):
    """trigonometric functions take radians only and give dimensionless results"""
    x = env.arr("x", SH[sh], **dom(f))
    q = env.pq.Quantity(x, u)
    if u != "radian":
        st, r = env.attempt(getattr(env.np, f), q)
        if st == "exc":
            env.check(isinstance(r, ValueError), f + ":wrong-exception-%s" % type(r).__name__)
            return
        # accepting it is only right with the value converted
        k = {"degree": 3.141592653589793 / 180, "arcminute": 3.141592653589793 / 10800}.get(u, 1)
        env.eq(env.vals(r), [plain(env, f, t * k) for t in env.vals(x)], f)
        env.same_dims(r, {}, f)
        return
    r = getattr(env.np, f)(q)
    env.same_dims(r, {}, f)
    env.eq(env.vals(r), [plain(env, f, t) for t in env.vals(x)], f)


@harness("C09", f=["radians", "degrees"], sh=["arr", "0d"])
def angles(env, f, sh):
    """np.radians and np.degrees convert between the two angle units"""
    x = env.arr("x", SH[sh])
    src, dst, k = ("degree", "radian", 3.141592653589793 / 180) if f == "radians" else ("radian", "degree", 180 / 3.141592653589793)
    r = getattr(env.np, f)(env.pq.Quantity(x, src))
    env.same_dims(r, env.dims(env.pq.Quantity(1.0, dst)), f)
    env.eq(env.vals(r), [t * k for t in env.vals(x)], f)
    env.raises(ValueError, lambda: getattr(env.np, f)(env.pq.Quantity(x, dst)), f)


@harness("C09", f=["logaddexp", "logaddexp2"], which=["ok", "first", "second", "both"])
def logaddexp(env, f, which):
    ua, ub, va = units(env)
    x, y = env.arr("x", (2,), lo=-5, hi=5), env.arr("y", (2,), lo=-5, hi=5)
    q = env.pq.Quantity(x, ua if which in ("first", "both") else env.pq.dimensionless)
    p = env.pq.Quantity(y, ua if which in ("second", "both") else env.pq.dimensionless)
    fn = getattr(env.np, f)
    if which == "ok":
        r = fn(q, p)
        env.same_dims(r, {}, f)
        env.eq(env.vals(r), [plain(env, f, a, b) for a, b in zip(env.vals(x), env.vals(y))], f)
    else:
        env.raises(ValueError, lambda: fn(q, p), f)


@harness("C09", f=PREDS)
def predicates(env, f):
    """is* tests give plain truth values for any units"""
    ua, ub, va = units(env)
    x = env.fparr("x", (2,))
    q = env.pq.Quantity(x, "m/s")
    r = getattr(env.np, f)(q)
    env.check(not getattr(r, "dimensionality", None), f + ":units")
    w = getattr(env.np, f)(x)
    for a, b in zip(env.vals(r), env.vals(w)):
        env.check(bool(a) == bool(b), f)


# what the units of functions without a rule today would have to be
MATHS = {"sign": {}, "cbrt": {"ua": 1}, "trunc": {"ua": 3}, "fmax": {"ua": 3}, "fmin": {"ua": 3}, "copysign": {"ua": 3},
         "nextafter": {"ua": 3}, "float_power": {"ua": 6}, "signbit": {}, "spacing": {"ua": 3}, "heaviside": None,
         "deg2rad": None, "rad2deg": None, "logical_not": {}, "logical_and": {}, "logical_or": {}, "logical_xor": {},
         "bitwise_and": None, "left_shift": None, "gcd": {"ua": 3}, "lcm": {"ua": 3}}


@harness("C09", f=list(MATHS))
def no_rule(env, f):
    """functions without a rule are refused, or they give the units mathematics prescribes"""
    ua, ub, va = units(env)
    if f in ("bitwise_and", "left_shift", "gcd", "lcm"):
        mk = lambda n: env.np.array([4, 2])
    else:
        mk = lambda n: env.arr(n, (2,), pos=True)
    q, p = env.pq.Quantity(mk("x"), ua ** 3), env.pq.Quantity(mk("y"), ua ** 3)
    fn = getattr(env.np, f)
    args = (q,) if fn.nin == 1 else ((q, 2) if f == "float_power" else (q, p))
    ss = env.snap(q)
    st, r = env.attempt(fn, *args)
    env.unchanged(ss, q, "operand")
    if st == "exc":
        env.check(isinstance(r, (ValueError, TypeError)), f + ":wrong-exception-%s" % type(r).__name__)
    elif MATHS[f] is None:
        env.check(False, f + ":given-units")
    else:
        env.same_dims(r, MATHS[f], f) if hasattr(r, "dimensionality") else env.check(not MATHS[f], f + ":units-lost")


@harness("C09")
def two_outputs(env):
    """modf, frexp and divmod are refused or right"""
    ua, ub, va = units(env)
    q = env.pq.Quantity(env.np.array([1.5, 2.5]), ua)
    p = env.pq.Quantity(env.np.array([1.0, 2.0]), ua)
    for f, want in (("modf", ({"ua": 1}, {"ua": 1})), ("frexp", ({"ua": 1}, {})), ("divmod", ({}, {"ua": 1}))):
        fn = getattr(env.np, f)
        st, r = env.attempt(fn, *((q, p) if f == "divmod" else (q,)))
        if st == "exc":
            env.check(isinstance(r, (ValueError, TypeError)), f + ":wrong-exception-%s" % type(r).__name__)
        else:
            for i, w in zip(r, want):
                env.same_dims(i, w, f)


@harness("C09", f=["add", "subtract", "maximum"], side=["left", "right"])
def zeros(env, f, side):
    """plain zeros may stand for zero in any units; dimensionless quantities mix with plain numbers"""
    ua, ub, va = units(env)
    x, y = env.arr("x", (2,)), env.arr("y", (2,))
    fn = getattr(env.np, f)
    z = env.np.zeros(2)
    q = env.pq.Quantity(x, ua)
    r = fn(q, z) if side == "left" else fn(z, q)
    env.same_dims(r, {"ua": 1}, f)
    o = [0, 0]
    a, b = (env.vals(x), o) if side == "left" else (o, env.vals(x))
    env.eq(env.vals(r), [plain(env, f, i, j) for i, j in zip(a, b)], f)
    q = env.pq.Quantity(x)
    r = fn(q, y) if side == "left" else fn(y, q)
    env.same_dims(r, {}, f + "-dimensionless")
    a, b = (env.vals(x), env.vals(y)) if side == "left" else (env.vals(y), env.vals(x))
    env.eq(env.vals(r), [plain(env, f, i, j) for i, j in zip(a, b)], f + "-dimensionless", scale=[abs(i) + abs(j) for i, j in zip(a, b)])


@harness("C09", pair=[("m", "s"), ("J", "kg"), ("ft", "hour")])
def builtin(env, pair):
    a, b = pair
    x, y = env.arr("x", (2,), pos=True), env.arr("y", (2,), pos=True)
    q, p = env.pq.Quantity(x, a), env.pq.Quantity(y, b)
    da, db = env.dims(q), env.dims(p)
    np = env.np
    for f, d, w in ((np.multiply, env.mul_dims(da, db), [i * j for i, j in zip(env.vals(x), env.vals(y))]),
                    (np.divide, env.mul_dims(da, db, -1), [i / j for i, j in zip(env.vals(x), env.vals(y))])):
        r = f(q, p)
        env.same_dims(r, d, f.__name__)
        env.eq(env.vals(r), w, f.__name__)
    r = np.sqrt(np.square(q))
    env.same_dims(r, da, "sqrt-square")
    env.eq(env.vals(r), env.vals(x), "sqrt-square")


indep.register("C09")
